// C25: string helpers that build strings give the whole result or throw, and leak nothing.
#include "buf.h"

#include <amtl/am-string.h>

#include <new>

using namespace sim;
using namespace bufs;

namespace scen_strsplit {

const int kMaxT = 4;
const int kTexts = 6;  // shared by all threads, never changed
typedef std::vector<std::string> Pieces;

ORACLE const char* g_text[kTexts];
ORACLE std::string* g_str[kTexts];   // the same, as objects the code under test uses
ORACLE std::string* g_copy[kTexts];  // the model's copy

__attribute__((noinline)) static std::string text(int64_t seed, size_t n, int alphabet) {
    static const char* const cs[] = {"ab", "a,", "abAB", "azAZ@[`{09 \xe4\xff\x80", ",", "ab,\n;"};
    const char* c = cs[clampi(alphabet, 6)];
    size_t k = strlen(c);
    Rng r((uint64_t)seed + 5);
    std::string s;
    for (size_t i = 0; i < n; i++)
        s += c[r.below(k)];
    return s;
}
static size_t length_of(int64_t v) {
    static const size_t ls[] = {0, 1, 2, 3, 4, 5, 6, 8, 11, 14, 15, 16, 17, 24, 33, 70, 180};
    static const size_t hs[] = {255, 256, 257, 600, 1023, 1025, 2100, 4095, 4096, 4097, 5000, 8193, 33000, 66000};
    return v / 17 % 160 == 7 ? hs[clampi(v / 2720, 14)] : ls[clampi(v, 17)];
}
__attribute__((noinline)) static char* heap_text(const std::string& t) {
    char* p = (char*)arena_alloc(t.size() + 1);
    if (!p)
        violation("harness", "simulated heap exhausted");
    Quiet q;
    memcpy(p, t.c_str(), t.size() + 1);
    return p;
}
static Pieces* split_model(const std::string& s, const std::string& sep) {
    Pieces* r = new Pieces;
    size_t at = 0;
    if (s.empty())
        return r;
    for (;;) {
        size_t m = s.find(sep, at);
        if (m == std::string::npos)
            break;
        r->push_back(s.substr(at, m - at));
        at = m + sep.size();
    }
    r->push_back(s.substr(at));
    return r;
}
static std::string join_model(const Pieces& v, const std::string& sep) {
    std::string r;
    for (size_t i = 0; i < v.size(); i++)
        r += (i ? sep : "") + v[i];
    return r;
}
__attribute__((noinline)) static void expect_same(const std::string& got, const std::string& want, const char* fn) {
    Quiet q;
    if (got != want || strlen(got.c_str()) > got.size() || got.data()[got.size()])
        violation("text", "%s gives %s (%zu) instead of %s (%zu)", fn, show(got).c_str(), got.size(), show(want).c_str(), want.size());
}
__attribute__((noinline)) static void expect_bool(bool got, bool want, const char* fn, const std::string& a, const std::string& b) {
    Quiet q;
    if (got != want)
        violation("answer", "%s(%s, %s) says %d", fn, show(a).c_str(), show(b).c_str(), got);
}
__attribute__((noinline)) static void expect_pieces(const Pieces& got, const Pieces& want, const std::string& s, const std::string& sep) {
    Quiet q;
    if (got != want)
        violation("pieces", "splitting %s at %s gives %zu pieces (%s...) instead of %zu", show(s).c_str(), show(sep).c_str(),
                  got.size(), got.empty() ? "" : show(got.back()).c_str(), want.size());
}

enum { SPLIT, SPLITSTR, JOIN, ROUNDTRIP, UPPER, LOWER, STARTS, STARTSSTR, ENDS, CASECMP, NOPS };

// What the model computes for one operation, before it.
struct Case {
    std::string* text;
    std::string* other;
    Pieces* pieces;
    std::string* joined;
    char* h_text;  // null if the shared text is used
    char* h_other;
};
static bool ends_with(const std::string& s, const std::string& e) {
    return s.size() >= e.size() && !s.compare(s.size() - e.size(), e.size(), e);
}
static int sign(int v) {
    return v < 0 ? -1 : v > 0;
}
static std::string fold(std::string s, bool up) {
    for (char& c : s) {
        if (up && c >= 'a' && c <= 'z')
            c = (char)(c - 32);
        else if (!up && c >= 'A' && c <= 'Z')
            c = (char)(c + 32);
    }
    return s;
}
__attribute__((noinline)) static Case make_case(const Op& op, int code) {
    Case c;
    Quiet q;
    int shared = clampi(op.c / 64, 2 * kTexts);
    c.text = new std::string(shared < kTexts ? *g_copy[shared] : text(op.b, op.b / 64 % 96 == 7 && shared >= kTexts ? 70000 : length_of(op.a), (int)(op.c & 7)));
    if ((code == ENDS || code == STARTSSTR) && op.b % 8 == 1 && shared >= kTexts)
        c.text->insert(clampi(op.a, (int)c.text->size() + 1), 1, '\0');  // a string may hold any character
    static const char* const seps[] = {",", "a", "ab", "aa", ",,", "aba", "b,", ";", "\n", "AB", "", "aaaa"};
    c.other = new std::string(seps[clampi(op.c / 8, code == SPLIT || code == SPLITSTR || code == ROUNDTRIP ? 10 : 12)]);
    if (code == STARTS || code == STARTSSTR || code == ENDS || code == CASECMP) {
        size_t n = c.text->size(), k = n ? clampi(op.a / 32, (int)n + 1) : 0;
        std::string o = code == ENDS ? c.text->substr(n - k) : c.text->substr(0, k);
        switch (clampi(op.b / 4, 5)) {
            case 0: o += std::string(1 + clampi(op.b / 32, 9), 'a'); break;
            case 1: o = "b" + o; break;
            case 2: if (k) o[clampi(op.b, (int)k)] ^= 1; break;
            case 3: o = fold(o, op.b & 1); break;
        }
        *c.other = code == ENDS ? o : std::string(o.c_str());
    }
    if (code == JOIN) {
        c.pieces = new Pieces;
        int n = clampi(op.a / 32, 9);
        bool many = op.b / 64 % 48 == 5;
        if (many)
            n = 20 + clampi(op.b / 4096, 400);
        bool large = op.b / 64 % 48 == 6;
        for (int k = n; k > 0; k--)
            c.pieces->push_back(text(op.b + k, large ? (clampi(op.a + k, 4) == 3 ? 70001 : 9000 * clampi(op.a + k, 4)) : length_of(op.a * 3 + k) % (many ? 7 : 40), (int)(op.c & 7)));
        if (op.b % 8 == 1 && !c.pieces->empty()) {
            std::string& s = (*c.pieces)[clampi(op.a, (int)c.pieces->size())];
            s.insert(clampi(op.a / 8, (int)s.size() + 1), 1, '\0');
        }
    } else {
        bool split = code == SPLIT || code == SPLITSTR || code == ROUNDTRIP;
        c.pieces = split ? split_model(*c.text, *c.other) : new Pieces;
        if (c.pieces->size() > 10000 && shared >= kTexts) {
            // Very many pieces of a very long text: it may take a while, and tells nothing new.
            c.text->resize(10000);
            delete c.pieces;
            c.pieces = split_model(*c.text, *c.other);
        }
    }
    c.joined = new std::string(join_model(*c.pieces, *c.other));
    c.h_text = shared < kTexts ? nullptr : heap_text(*c.text);
    c.h_other = heap_text(*c.other);
    return c;
}
__attribute__((noinline)) static void drop_case(Case& c) {
    if (c.h_text)
        arena_free(c.h_text);
    arena_free(c.h_other);
    Quiet q;
    delete c.text;
    delete c.other;
    delete c.pieces;
    delete c.joined;
}
__attribute__((noinline)) static std::string folded(const std::string& s, bool up) {
    Quiet q;
    return fold(s, up);
}
__attribute__((noinline)) static bool model_says(const Case& c, int code) {
    Quiet q;
    return code == ENDS ? ends_with(*c.text, *c.other) : !c.text->compare(0, c.other->size(), *c.other);
}

static void body(int, const Op& op) {
    static const char* const names[] = {"Split", "Split", "Join", "Split and Join", "Uppercase", "Lowercase", "StartsWith", "StartsWith", "EndsWith", "StrCaseCmp"};
    int code = clampi(op.code, NOPS);
    int shared = clampi(op.c / 64, 2 * kTexts);
    const char* fn = names[code];
    Case c = make_case(op, code);
    const char* s = c.h_text ? c.h_text : g_text[shared];
    uint32_t nomem = thread_hits(F_NEW);
    try {
        // (the object itself, if it is a shared one)
        std::string own;
        if (c.h_text && (code == SPLITSTR || code == STARTSSTR || code == ENDS))
            own.assign(s, c.text->size());
        const std::string& str = c.h_text ? own : *g_str[shared];
        switch (code) {
            case SPLIT:
            case SPLITSTR: {
                Pieces r = code == SPLIT ? ke::Split(s, c.h_other) : ke::Split(str, c.h_other);
                expect_pieces(r, *c.pieces, *c.text, *c.other);
                probe("split");
                break;
            }
            case JOIN: {
                Pieces v;
                for (const std::string& p : *c.pieces)
                    v.push_back(p);
                std::string r = ke::Join(v, c.h_other);
                expect_same(r, *c.joined, fn);
                expect_pieces(v, *c.pieces, *c.joined, *c.other);
                probe("join");
                break;
            }
            case ROUNDTRIP:
                expect_same(ke::Join(ke::Split(s, c.h_other), c.h_other), *c.text, fn);
                break;
            case UPPER:
            case LOWER: {
                std::string r = code == UPPER ? ke::Uppercase(s) : ke::Lowercase(s);
                Quiet q;
                expect_same(r, fold(*c.text, code == UPPER), fn);
                break;
            }
            case STARTS:
            case STARTSSTR: {
                bool r = code == STARTS ? ke::StartsWith(s, c.h_other) : ke::StartsWith(str, c.h_other);
                expect_bool(r, model_says(c, code), fn, *c.text, *c.other);
                break;
            }
            case ENDS: {
                std::string e(c.h_other, c.other->size());
                bool r = ke::EndsWith(str, e);
                expect_bool(r, model_says(c, code), fn, *c.text, *c.other);
                break;
            }
            case CASECMP: {
                int r = ke::StrCaseCmp(s, c.h_other);
                Quiet q;
                int want = fold(*c.text, false).compare(fold(*c.other, false));
                if (sign(r) != sign(want))
                    violation("answer", "%s(%s, %s) says %d", fn, show(*c.text).c_str(), show(*c.other).c_str(), r);
                break;
            }
        }
    } catch (std::bad_alloc&) {
        SIM_EXPECT(thread_hits(F_NEW) != nomem, "spurious-exception", "%s threw although there was memory", fn);
        probe("bad-alloc");
    }
    drop_case(c);
}
static void run(const Program& p) {
    size_t base = live_blocks();
    int nt = 1 + clampi(p.p(1), kMaxT);
    set_max_steps(8000000);
    for (int k = 0; k < kTexts; k++) {
        {
            Quiet q;
            g_copy[k] = new std::string(text(p.p(2) + k, length_of(p.p(2) + 3 * k), k));
        }
        g_text[k] = heap_text(*g_copy[k]);
        g_str[k] = new std::string(g_text[k]);
    }
    enable_fault(F_NEW);
    enable_fault(F_STALL);
    run_threads(p, nt, body);
    disable_faults();
    set_no_preempt(true);
    for (int k = 0; k < kTexts; k++) {
        SIM_EXPECT(*g_str[k] == g_text[k], "text", "a text nobody changes changed");
        arena_free((void*)g_text[k]);
        delete g_str[k];
    }
    SIM_EXPECT(live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
static void gen(Rng& r, Program& p) {
    int nt = (int)r.below(kMaxT);
    p.params = {(int64_t)r.below(3), nt, (int64_t)r.below(1000)};
    for (int t = 0; t <= nt; t++) {
        int n = 2 + (int)r.below(10);
        for (int k = 0; k < n; k++)
            p.ops.push_back(mkop(t, (int)r.below(NOPS), (int64_t)r.below(1 << 16), (int64_t)r.below(1 << 20), (int64_t)r.below(1 << 12)));
    }
}
SIM_SCENARIO(strsplit, "strsplit", gen, run);
}  // namespace scen_strsplit
