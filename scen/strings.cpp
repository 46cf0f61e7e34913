// C16: bounded formatting and copying. C17: allocating formatting.
#include "buf.h"

#include <amtl/am-string.h>
#include <amtl/os/am-path.h>

#include <stdlib.h>

#pragma GCC diagnostic ignored "-Wformat"
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-zero-length"

using namespace sim;
using namespace bufs;

namespace scen_strings {

const int kMaxT = 4;
const int kForms = 13;  // (the last one, with a NUL, only where the length of the text is told)

// A text made of the characters that matter, without NUL.
__attribute__((noinline)) static std::string text(int64_t seed, size_t n) {
    static const char cs[] = "abcXYZ0189 %/\\\\//.-_\xff\x80\n%sdn";
    Rng r((uint64_t)seed + 77);
    std::string s;
    s.reserve(n);
    for (size_t i = 0; i < n; i++)
        s += cs[r.below(sizeof(cs) - 1)];
    return s;
}
enum { NORMAL, BIG, HUGE_ };
static size_t length_of(int64_t v, int size) {
    static const size_t ls[] = {0, 1, 2, 3, 5, 7, 8, 12, 15, 16, 17, 23, 31, 33, 64};
    static const size_t bs[] = {100, 127, 128, 255, 256, 257, 511, 1023, 1024, 1025, 600, 300, 2047, 2048, 4100};
    static const size_t hs[] = {4095, 4096, 4097, 8190, 8192, 10000, 16383, 16384, 20001, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70001};
    return size == HUGE_ ? hs[clampi(v, 17)] : size == BIG ? bs[clampi(v, 15)] : ls[clampi(v, 15)];
}

// The arguments of one formatting call, and the text they have to give.
struct Args {
    int form;
    const char* s;  // in the simulated heap, exactly as long as needed
    int i;
    int w;
    long long ll;
    std::string* want;  // model heap
};
__attribute__((noinline)) static std::string dec(long long v) {
    char b[32];
    int n = 0;
    unsigned long long u = v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v;
    do
        b[n++] = (char)('0' + u % 10);
    while (u /= 10);
    std::string s = v < 0 ? "-" : "";
    while (n)
        s += b[--n];
    return s;
}
__attribute__((noinline)) static char* heap_text(const std::string& t, bool terminated) {
    size_t n = t.size() + (terminated ? 1 : 0);
    char* p = (char*)arena_alloc(n ? n : 1);
    if (!p)
        violation("harness", "simulated heap exhausted");
    Quiet q;
    memcpy(p, t.data(), t.size());
    if (terminated)
        p[t.size()] = 0;
    return p;
}
__attribute__((noinline)) static Args make_args(const Op& op, int big, bool nul = false) {
    Quiet q;
    Args a;
    a.form = clampi(op.c, nul ? kForms : kForms - 1);
    std::string t = text(op.b, length_of(op.a, big));
    a.i = (int)(op.b * 2654435761u);
    a.w = (int)length_of(op.a / 3, big);
    a.ll = (long long)op.b * 0x123456789abcdll - 5;
    a.s = nullptr;
    if (big == HUGE_ && a.form == 4 && op.b % 4 == 0) {
        static const int ws[] = {1048575, 1048576, 1048577, 1100000, 2097152, 3000000};
        a.w = ws[op.b / 4 % 6];
        probe("megabytes");
    }
    std::string w;
    switch (a.form) {
        case 0: break;
        case 1: w = t; break;
        case 2: w = dec(a.i); break;
        case 3: w = t + "/" + dec(a.i) + "\\" + t; break;
        case 4: w = dec(a.i); if ((int)w.size() < a.w) w.insert((size_t)0, a.w - w.size(), ' '); break;
        case 5: w = t.substr(0, a.w); break;
        case 6: w = std::string("%") + (char)('a' + (a.i & 15)) + "%"; break;
        case 7: {
            static const char* hex = "0123456789abcdef";
            for (int k = 28; k >= 0; k -= 4)
                w += hex[((unsigned)a.i >> k) & 15];
            break;
        }
        case 8: w = dec(a.ll) + "|" + dec((long long)t.size()); break;
        case 9: w = "plain \\ text / of one\\\\kind"; break;
        case 10: w = "[" + t + "]" + dec(a.i) + "," + dec(a.ll) + "," + t + "," + dec(a.w) + "!"; break;
        case 11: w = "\\" + t; break;
        case 12: w = t + '\0' + dec(a.i) + '\0'; break;
    }
    a.w = a.form == 8 ? (int)t.size() : a.w;
    a.s = heap_text(t, true);
    a.want = new std::string(w);
    return a;
}
__attribute__((noinline)) static void drop_args(Args& a) {
    {
        Quiet q;
        delete a.want;
    }
    arena_free((void*)a.s);
}
// Calls f(format, arguments...).
template <typename F>
static auto with_args(const Args& a, F f) {
    switch (a.form) {
        default: return f("");
        case 1: return f("%s", a.s);
        case 2: return f("%d", a.i);
        case 3: return f("%s/%d\\%s", a.s, a.i, a.s);
        case 4: return f("%*d", a.w, a.i);
        case 5: return f("%.*s", a.w, a.s);
        case 6: return f("%%%c%%", 'a' + (a.i & 15));
        case 7: return f("%08x", (unsigned)a.i);
        case 8: return f("%lld|%zu", a.ll, (size_t)a.w);
        case 9: return f("plain \\ text / of one\\\\kind");
        case 10: return f("[%s]%d,%lld,%s,%d!", a.s, a.i, a.ll, a.s, a.w);
        case 11: return f("\\%s", a.s);
        case 12: return f("%s%c%d%c", a.s, 0, a.i, 0);
    }
}

static size_t va_safe(char* b, size_t n, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    size_t r = ke::SafeVsprintf(b, n, fmt, ap);
    va_end(ap);
    return r;
}
static size_t va_path(char* b, size_t n, const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    size_t r = ke::path::FormatVa(b, n, fmt, ap);
    va_end(ap);
    return r;
}
static std::unique_ptr<char[]> va_alloc(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    std::unique_ptr<char[]> r = ke::SprintfArgs(fmt, ap);
    va_end(ap);
    return r;
}
static std::string va_string(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    std::string r = ke::StringPrintfVa(fmt, ap);
    va_end(ap);
    return r;
}

// ---------------------------------------------------------------------------------------------
// C16

__attribute__((noinline)) static void check_text(const Buf& b, size_t len, const std::string& want, const char* fn) {
    Quiet q;
    if (holds(b, len, want))
        return;
    size_t k = want.size() < b.n ? want.size() : (b.n ? b.n - 1 : 0);
    if (b.n && !memchr(b.p, 0, b.huge ? 200000 : b.n))
        violation("unterminated", "%s left no terminated string in %zu bytes", fn, b.n);
    std::string got = b.n ? std::string(b.p) : std::string();
    if (len != k)
        violation("length", "%s returned %zu for %s of %zu bytes into %zu: %s is left", fn, len, show(want).c_str(), want.size(), b.n,
                  show(got).c_str());
    violation("text", "%s gives %s instead of %s in %zu bytes", fn, show(got).c_str(), show(want.substr(0, k)).c_str(), b.n);
}

enum { SPRINTF, VSPRINTF, PFORMAT, PFORMATVA, CPY, CPYN, CAT, CATMANY, NOPS };
static const char* const kName[] = {"SafeSprintf", "SafeVsprintf", "path::Format", "path::FormatVa", "SafeStrcpy", "SafeStrcpyN",
                                    "SafeStrcat",  "SafeStrcat"};

__attribute__((noinline)) static size_t buf_size(const Op& op, size_t want) {
    int v = clampi(op.a / 64, 24);
    if (v < 12)  // near the length of the text
        return want + 8 > (size_t)v ? want + 8 - v : 0;
    static const size_t s[] = {0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 40, 300};
    return s[v - 12];
}
static void body(int, const Op& op) {
    int code = clampi(op.code, NOPS);
    const char* fn = kName[code];
    int big = clampi(op.a / 4096, 16) == 15 ? BIG : clampi(op.a / 512, 128) == 5 ? HUGE_ : NORMAL;
    bool guarded = op.c / 64 & 1;
    switch (code) {
        case SPRINTF:
        case VSPRINTF:
        case PFORMAT:
        case PFORMATVA: {
            Args a = make_args(op, big);
            Buf b = op.c / 128 % 24 == 7 ? make_huge_buf((int)(op.c & 7)) : make_buf(buf_size(op, a.want->size()), guarded);
            uint32_t before = thread_hits(F_VSNPRINTF);
            size_t len = with_args(a, [&](const char* fmt, auto... args) {
                switch (code) {
                    case SPRINTF: return ke::SafeSprintf(b.p, b.n, fmt, args...);
                    case VSPRINTF: return va_safe(b.p, b.n, fmt, args...);
                    case PFORMAT: return ke::path::Format(b.p, b.n, fmt, args...);
                    default: return va_path(b.p, b.n, fmt, args...);
                }
            });
            bool failed = thread_hits(F_VSNPRINTF) != before;
            check_guards(b, fn);
            {
                Quiet q;
                if (code == PFORMAT || code == PFORMATVA) {
                    for (char& c : *a.want) {
                        if (c == '\\')
                            c = '/';
                    }
                }
                if (failed) {
                    probe("format-failed");
                    // (Having tried again successfully would be fine.)
                    if (!holds(b, len, *a.want) && !holds(b, len, ""))
                        violation("failure", "%s leaves %s and returns %zu although the text cannot be formatted", fn,
                                  b.n && memchr(b.p, 0, b.huge ? 200000 : b.n) ? show(b.p).c_str() : "no terminated string", len);
                } else {
                    check_text(b, len, *a.want, fn);
                    probe(b.n > a.want->size() ? "fits" : b.n ? "cut" : "no-room");
                }
            }
            drop_buf(b);
            drop_args(a);
            break;
        }
        case CPY:
        case CPYN: {
            Quiet* q = new Quiet;  // (the strings of the model)
            std::string t = text(op.b, length_of(op.a, big));
            size_t n = code == CPY ? t.size() : op.b % 11 == 3 ? ~(size_t)0 >> (op.b / 11 % 2) : op.b % 11 == 4 ? kHuge[op.b / 11 % 7] : clampi(op.b / 7, (int)t.size() + 4);
            std::string want = t.substr(0, n);
            size_t size = buf_size(op, want.size());
            delete q;
            // Reading stops at the terminator and after n characters.
            bool term = n >= t.size() || op.c & 1;
            char* s = heap_text(term ? t : want, term);
            Buf b = op.c / 128 % 24 == 7 ? make_huge_buf((int)(op.c & 7)) : make_buf(size, guarded);
            if (op.c / 2 % 16 == 1) {
                size_t r = code == CPY ? ke::SafeStrcpy(nullptr, b.n, s) : ke::SafeStrcpyN(nullptr, b.n, s, n);
                SIM_EXPECT(r == 0, "length", "%s without a buffer returned %zu", fn, r);
            }
            size_t len = code == CPY ? ke::SafeStrcpy(b.p, b.n, s) : ke::SafeStrcpyN(b.p, b.n, s, n);
            check_guards(b, fn);
            check_text(b, len, want, fn);
            probe(code == CPY ? "copy" : n > t.size() ? "copyn-short-source" : "copyn");
            drop_buf(b);
            arena_free(s);
            q = new Quiet;
            t = std::string();
            want = std::string();
            delete q;
            break;
        }
        case CAT:
        case CATMANY: {
            Quiet* q = new Quiet;
            size_t size = buf_size(op, big == HUGE_ ? 66000 : big == BIG ? 1500 : 20);
            std::string have = text(op.b + 1, size ? clampi(op.b, (int)size) : 0);
            delete q;
            Buf b = op.c / 128 % 24 == 7 ? make_huge_buf((int)(op.c & 7)) : make_buf(size ? size : 1, guarded);
            q = new Quiet;
            memcpy(b.p, have.c_str(), have.size() + 1);
            delete q;
            for (int k = 0; k < (code == CAT ? 1 : 4); k++) {
                q = new Quiet;
                std::string t = text(op.b + k, length_of(op.a + k, big));
                delete q;
                char* s = heap_text(t, true);
                // What is told about the room may be less than there is.
                size_t room = k == 3 && op.c & 1 ? clampi(op.c / 2, b.huge ? 2000000000 : (int)b.n + 1) : b.n;
                size_t len = ke::SafeStrcat(b.p, room, s);
                check_guards(b, fn);
                q = new Quiet;
                size_t fits = room > have.size() ? room - have.size() - 1 : 0;
                have += t.substr(0, fits);
                if (len != have.size())
                    violation("length", "%s returned %zu, the string has %zu characters", fn, len, have.size());
                if (memcmp(b.p, have.c_str(), have.size() + 1))
                    violation("text", "%s made %s instead of %s", fn, memchr(b.p, 0, b.huge ? 200000 : b.n) ? show(b.p).c_str() : "no terminated string",
                              show(have).c_str());
                t = std::string();
                delete q;
                arena_free(s);
            }
            probe("append");
            drop_buf(b);
            q = new Quiet;
            have = std::string();
            delete q;
            break;
        }
    }
}
static void run(const Program& p) {
    size_t base = live_blocks();
    int nt = 1 + clampi(p.p(1), kMaxT);
    set_max_steps(8000000);
    enable_fault(F_VSNPRINTF);
    enable_fault(F_STALL);
    run_threads(p, nt, body);
    disable_faults();
    set_no_preempt(true);
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
static void gen_ops(Rng& r, Program& p, int nops, int max) {
    int nt = (int)r.below(kMaxT);
    p.params = {(int64_t)r.below(3), nt};
    for (int t = 0; t <= nt; t++) {
        int n = 2 + (int)r.below(max);
        for (int k = 0; k < n; k++)
            p.ops.push_back(mkop(t, (int)r.below(nops), (int64_t)r.below(1 << 16), (int64_t)r.below(1 << 20), (int64_t)r.below(1 << 12)));
    }
}
static void gen(Rng& r, Program& p) {
    gen_ops(r, p, NOPS, 10);
}
SIM_SCENARIO(strbound, "strbound", gen, run);

// ---------------------------------------------------------------------------------------------
// C17

enum { A_SPRINTF, A_ARGS, A_STRING, A_STRINGVA, A_NOPS };
static const char* const kAName[] = {"Sprintf", "SprintfArgs", "StringPrintf", "StringPrintfVa"};

__attribute__((noinline)) static void check_alloc(const char* fn, const char* got, size_t len, bool have, bool excuse, bool pointer,
                                                  const Args& a) {
    Quiet q;
    if (have && len == a.want->size() && !memcmp(got, a.want->data(), len)) {
        probe(excuse ? "right-anyway" : "right");
        return;
    }
    if (excuse && (pointer ? !have : !len)) {
        probe("gave-up");
        return;
    }
    if (!have)
        violation("no-text", "%s returned null although formatting did not fail", fn);
    std::string s(got, len);
    violation(excuse ? "failure" : "text", "%s gives %s (%zu) instead of %s (%zu)", fn, show(s).c_str(), len, show(*a.want).c_str(),
              a.want->size());
}
static void abody(int, const Op& op) {
    int code = clampi(op.code, A_NOPS);
    int big = clampi(op.a / 64, 8) == 0 ? BIG : clampi(op.a / 512, 64) == 5 ? HUGE_ : NORMAL;
    Args a = make_args(op, big, code == A_STRING || code == A_STRINGVA);
    uint32_t fails = thread_hits(F_VSNPRINTF), nomem = thread_hits(F_NEW);
    uint64_t full = malloc_refusals();
    try {
        if (code == A_SPRINTF || code == A_ARGS) {
            std::unique_ptr<char[]> r = with_args(a, [&](const char* fmt, auto... args) {
                return code == A_SPRINTF ? ke::Sprintf(fmt, args...) : va_alloc(fmt, args...);
            });
            bool excuse = thread_hits(F_VSNPRINTF) != fails;
            const char* s = r.get();
            size_t n = s ? block_size(s) : 0;
            if (s) {
                SIM_EXPECT(n != (size_t)-1, "text", "%s returned something that is not a block of its own", kAName[code]);
                Quiet q;
                const char* e = (const char*)memchr(s, 0, n);
                if (!e)
                    violation("unterminated", "%s returned no terminated string", kAName[code]);
                n = (size_t)(e - s);
            }
            check_alloc(kAName[code], s, n, !!s, excuse, true, a);
        } else {
            std::string r = with_args(a, [&](const char* fmt, auto... args) {
                return code == A_STRING ? ke::StringPrintf(fmt, args...) : va_string(fmt, args...);
            });
            bool excuse = thread_hits(F_VSNPRINTF) != fails;
            check_alloc(kAName[code], r.data(), r.size(), true, excuse, false, a);
        }
    } catch (std::bad_alloc&) {
        SIM_EXPECT(thread_hits(F_NEW) != nomem || malloc_refusals() != full, "spurious-exception", "%s threw although there was memory", kAName[code]);
        probe("bad-alloc");
    }
    drop_args(a);
}
static void arun(const Program& p) {
    size_t base = live_blocks();
    int nt = 1 + clampi(p.p(1), kMaxT);
    set_max_steps(8000000);
    enable_fault(F_VSNPRINTF);
    enable_fault(F_NEW);
    enable_fault(F_STALL);
    run_threads(p, nt, abody);
    disable_faults();
    set_no_preempt(true);
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
static void agen(Rng& r, Program& p) {
    gen_ops(r, p, A_NOPS, 10);
}
SIM_SCENARIO(stralloc, "stralloc", agen, arun);
}  // namespace scen_strings
