// C26: the argument parser assigns what the command line says, again and again, whatever failed before.
#include "buf.h"

#include <amtl/experimental/am-argparser.cpp>
#include <amtl/am-mutex.h>

#include <map>
#include <mutex>
#include <new>
#include <set>

using namespace sim;
using namespace bufs;
using namespace ke::args;

namespace scen_argparser {

const int kMaxT = 4;
const int kWorlds = 3;
const int kSomeOpts = 7;
const int kMaxOpts = 48;
const int kMaxPos = 3;

enum Kind { TOGGLE, TOGGLE_T, ENABLE, ENABLE_T, STRING, STRING_D, INT, INT_D, BOOL, BOOL_F, REPSTR, REPINT, STOP, KINDS };

struct Decl {
    const char* s;
    const char* l;
};
// (some are given with their dashes)
static const Decl kForms[] = {{"x", nullptr}, {"-O", nullptr}, {nullptr, "verbose"}, {nullptr, "--no-color"}, {"-i", "--include-path"},
                              {"s", "stuff"}, {"D", "--define"}, {"ab", "a-b"}, {"-q", nullptr}, {nullptr, "stuff-more"},
                              {"vv", "--verbose-very-much-with-a-long-name"}, {"-n", "no"}};
const int kNForms = sizeof(kForms) / sizeof(kForms[0]);
// More of them, for parsers with a great many options.
static const char* const kMore[] = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9", "ka", "kb", "kc", "kd", "ke", "kf",
                                    "kg", "kh", "ki", "kj", "kk", "kl", "km", "kn", "ko", "kp", "kq", "kr", "ks", "kt", "ku", "kv",
                                    "kw", "kx", "ky", "kz", "kA", "kB", "kC", "kD"};
// And long ones.
#define N16 "abcdefghij-klmno"
#define N64 N16 N16 N16 N16
static const Decl kLong[] = {{nullptr, N64 "-more"}, {N64, N64 "p"}, {"-w", N64 N64 N64 N64 "q"}, {nullptr, N16 N16 "r"},
                             {nullptr, N64 "-mor"}, {N16 "q", nullptr},
                             {"-y", N64 N64 N64 N64 "r"}, {nullptr, N64 "-morf"}, {"z", "z" N64 "-more"}, {N16 "r", N16 "s"}};
const int kNLong = sizeof(kLong) / sizeof(kLong[0]);
const int kNMany = kNForms + sizeof(kMore) / sizeof(kMore[0]);
static Decl form_of(int f) {
    if (f < kNForms)
        return kForms[f];
    if (f >= kNMany)
        return kLong[f - kNMany];
    const char* n = kMore[f - kNForms];
    return f % 2 ? Decl{n, nullptr} : Decl{nullptr, n};
}
static const char* const kPos[] = {"file", "MODE", "third_one"};

struct Spec {
    Kind kind;
    int form;           // see form_of(); -1: a positional
    int stat = -1;      // index into g_static, if it is no parser's own
    std::string s, l;   // without dashes; empty if none
    std::string name;   // how messages call it
    std::string help;
};
struct Value {
    bool set = false;
    bool b = false;
    std::string str;
    int64_t i = 0;
    std::vector<std::string> strs;
    std::vector<int64_t> ints;
};
struct Outcome {
    bool ok = true;
    std::string culprit;  // a message has to name it
    std::vector<Value> vals;
    std::vector<std::string> extra, pass;
};
// The model of one parser.
struct Model {
    std::vector<Spec> specs;  // options, then positionals
    int nopts = 0;
    bool help, inl, slash, collect, pass;
    std::string head;
    bool usage_line;
    bool dirty = false;       // parsed since the last reset
    bool failed = false;      // the last parse threw
    Outcome last;
};
struct World {
    Parser* parser;
    IOption* opt[kMaxOpts + kMaxPos];
    Model* m;
    ke::Mutex* lock;
};
ORACLE World g_w[kWorlds];
ORACLE Oint g_worlds;
// Options declared without a parser: every parser made later has them.
const int kMaxStatic = 24;
ORACLE IOption* g_static[kMaxStatic];

static bool must_omit(Kind k) {
    return k <= ENABLE_T || k == STOP;
}
static bool parse_int(const std::string& v, int64_t* out) {
    size_t i = v[0] == '-';
    if (i == v.size())
        return false;
    int64_t n = 0;
    for (; i < v.size(); i++) {
        if (v[i] < '0' || v[i] > '9')
            return false;
        n = n * 10 + (v[i] - '0');
        if (n > 3000000000)
            n = 3000000000;
    }
    *out = v[0] == '-' ? -n : n;
    return *out >= INT_MIN && *out <= INT_MAX;
}
static std::string lower(std::string s) {
    for (char& c : s) {
        if (c >= 'A' && c <= 'Z')
            c += 32;
    }
    return s;
}
// Gives |v| (null: none) to an option; false if it is not a value for it.
static bool give(const Spec& sp, Value& val, const std::string* v, bool no) {
    switch (sp.kind) {
        case TOGGLE:
        case TOGGLE_T:
        case STOP:
            val.b = sp.kind != TOGGLE_T;
            break;
        case ENABLE:
        case ENABLE_T:
            val.b = !no;
            break;
        case BOOL:
        case BOOL_F:
            if (v && lower(*v) != "true" && lower(*v) != "false")
                return false;
            val.b = !v || lower(*v) == "true";
            break;
        case STRING:
        case STRING_D:
            if (!v || v->empty())
                return false;
            val.str = *v;
            break;
        case INT:
        case INT_D: {
            int64_t n;
            if (!v || !parse_int(*v, &n))
                return false;
            val.i = n;
            break;
        }
        case REPSTR:
            if (!v || v->empty())
                return false;
            val.strs.push_back(*v);
            break;
        case REPINT: {
            int64_t n;
            if (!v || !parse_int(*v, &n))
                return false;
            val.ints.push_back(n);
            break;
        }
        default: break;
    }
    val.set = true;
    return true;
}
static int by_short(const Model& m, const std::string& s) {
    for (int i = 0; i < m.nopts; i++) {
        if (!s.empty() && m.specs[i].s == s)
            return i;
    }
    return -1;
}
static int by_long(const Model& m, const std::string& s) {
    for (int i = 0; i < m.nopts; i++) {
        if (!s.empty() && m.specs[i].l == s)
            return i;
    }
    return -1;
}
static Outcome parse_model(const Model& m, const std::vector<std::string>& args) {
    Outcome o;
    o.vals.resize(m.specs.size());
    bool passing = false, halted = false, help = false;
    size_t pos = m.nopts;
    auto fail = [&](const std::string& who) {
        o.ok = false;
        o.culprit = who;
        return o;
    };
    for (size_t i = 0; i < args.size() && !halted; i++) {
        const std::string& a = args[i];
        if (passing) {
            o.pass.push_back(a);
            continue;
        }
        if (m.pass && a == "--") {
            passing = true;
            continue;
        }
        int k = -1;
        bool no = false, have = false;
        std::string v;
        if (a[0] == '-' || (m.slash && a[0] == '/')) {
            size_t sep = a.find_first_of(m.inl ? "=:" : "=");
            std::string key = a.substr(0, sep);
            if (sep != std::string::npos) {
                have = true;
                v = a.substr(sep + 1);
            }
            if (a.compare(0, 2, "--") == 0) {
                k = by_long(m, key.substr(2));
                if (k < 0 && key.compare(0, 5, "--no-") == 0) {
                    k = by_long(m, key.substr(5));
                    if (k >= 0 && m.specs[k].kind != ENABLE && m.specs[k].kind != ENABLE_T)
                        k = -1;
                    no = true;
                }
            } else {
                k = by_short(m, key.substr(1));
                if (k < 0 && m.inl && m.help && a[1] == 'h' && a.size() > 2)
                    return fail("help");
                if (k < 0 && m.inl && a.size() > 2) {
                    k = by_short(m, a.substr(1, 1));
                    have = true;
                    v = a.substr(2);
                }
            }
            if (k < 0) {
                if (m.help && (key == "-h" || key == "--help" || (m.slash && key == "/h"))) {
                    if (have)
                        return fail("help");
                    help = halted = true;
                    break;
                }
                return fail(a);
            }
            const Spec& sp = m.specs[k];
            if (o.vals[k].set && sp.kind != REPSTR && sp.kind != REPINT)
                return fail(sp.name);
            if (have && must_omit(sp.kind))
                return fail(sp.name);
            if (!have && !must_omit(sp.kind)) {
                if (i + 1 < args.size() && (sp.kind != BOOL && sp.kind != BOOL_F)) {
                    v = args[++i];
                    have = true;
                } else if (i + 1 < args.size() && (lower(args[i + 1]) == "true" || lower(args[i + 1]) == "false")) {
                    v = args[++i];
                    have = true;
                }
            }
        } else {
            if (pos >= m.specs.size()) {
                if (!m.collect)
                    return fail("extra");
                o.extra.push_back(a);
                continue;
            }
            k = (int)pos++;
            v = a;
            have = true;
        }
        if (!give(m.specs[k], o.vals[k], have ? &v : nullptr, no))
            return fail(m.specs[k].name);
        if (m.specs[k].kind == STOP)
            halted = true;
    }
    if (!halted && pos < m.specs.size())
        return fail(m.specs[pos].name);
    if (help)
        o.ok = false;
    return o;
}

// A command line, made of what the parser knows and of what it does not.
static std::string value_for(Rng& r, const Spec& sp, bool good, bool inl) {
    static const char* const strs[] = {"a", "blah", "x/y.z", "-x", "--", "true", "a b", "averyveryverylongvaluethatneedsmemory", "100%d%%"};
    static const char* const ints[] = {"0", "7", "308", "-5", "2147483647", "-2147483648", "000012"};
    static const char* const bad[] = {"30x", "x", "2147483648", "-2147483649", "4294967303", "99999999999999999999", "1e3", "-", "TRU"};
    switch (sp.kind) {
        case INT:
        case INT_D:
        case REPINT: return good ? ints[r.below(7)] : r.below(8) ? bad[r.below(9)] : "";
        case BOOL:
        case BOOL_F: {
            static const char* const bools[] = {"true", "false", "TRUE", "False"};
            return good ? bools[r.below(4)] : bad[r.below(2)];
        }
        default: {
            if (!good)
                return "";
            std::string s = strs[r.below(9)];
            if (!r.below(60))
                s = std::string(40 + r.below(3000), 'q') + "w";
            if (!r.below(6))
                s += "=:q";
            return s;
        }
    }
}
static std::vector<std::string> make_args_line(const Model& m, int64_t seed) {
    Rng r((uint64_t)seed);
    std::vector<std::string> a;
    int n = (int)(r.below(30) ? r.below(8) : r.below(70));
    bool mostly = r.below(3) != 0;  // mostly sound
    size_t pos = 0;
    std::set<int> used;
    for (int j = 0; j < n; j++) {
        int what = (int)r.below(mostly ? 20 : 12);
        if (what == 0 && !m.help)
            what = 3;
        if (what == 0 && r.below(3)) {
            a.push_back(r.below(2) ? "-h" : "--help");
        } else if (what == 1 && !(mostly && r.below(2))) {
            static const char* const junk[] = {"--nothing", "-z", "--no-nothing", "--no-", "-", "--no-verbose", "--stuf", "--stuff-", "--help=1", "-hh", "-=x", "--=x", "---x", "--no-stuff=true", "-afoo", "-v1", "-D", "-bx", "-a", "-v", "--ab", "/", "/:", "--stuff:7", "--100%d", "-%%x%5"};
            const Spec* sp = r.below(3) || !m.nopts ? nullptr : &m.specs[r.below(m.nopts)];
            if (sp) {
                // Almost the name of one.
                bool lg = !sp->l.empty() && (sp->s.empty() || r.below(2));
                std::string s = lg ? sp->l : sp->s;
                switch (r.below(5)) {
                    case 0: s.erase(s.size() - 1); break;
                    case 1: s += s[s.size() - 1]; break;
                    case 2: s[r.below(s.size())] ^= 1; break;
                    case 3: s[s.size() - 1] ^= 32; break;
                    default: s[0] ^= 32; break;
                }
                a.push_back((lg ? "--" : "-") + s);
            } else if (!r.below(12))
                a.push_back("--" + std::string(30 + r.below(r.below(4) ? 100 : 3000), 'j') + "k");
            else
                a.push_back(junk[r.below(26)]);
        } else if (what == 2 && m.pass) {
            a.push_back("--");
        } else if (what <= 4) {
            if (mostly && !m.collect && pos >= m.specs.size() - m.nopts)
                continue;
            size_t p = m.nopts + pos++;
            bool good = r.below(6) != 0;
            std::string v = p < m.specs.size() ? value_for(r, m.specs[p], good, true) : value_for(r, Spec{STRING, 0, -1, "", "", "", ""}, true, true);
            if (v.empty() || v[0] == '-' || v[0] == '/')
                v = "plain";
            a.push_back(v);
        } else if (m.nopts) {
            int k = (int)r.below(m.nopts);
            if (mostly && used.count(k) && r.below(4))
                continue;
            used.insert(k);
            const Spec& sp = m.specs[k];
            bool shrt = !sp.s.empty() && (sp.l.empty() || r.below(2));
            std::string key = shrt ? (m.slash && !r.below(3) ? "/" : "-") + sp.s
                                   : ((sp.kind == ENABLE || sp.kind == ENABLE_T) && r.below(2) ? "--no-" : "--") + sp.l;
            bool good = r.below(mostly ? 12 : 4) != 0;
            bool takes = !must_omit(sp.kind);
            if (!takes && good) {
                a.push_back(key);
                continue;
            }
            std::string v = value_for(r, sp, good, m.inl);
            int style = (int)r.below(4);
            if (!takes && v.empty())
                v = "1";
            if (m.inl && v.empty())
                style = 0;
            if (takes && (sp.kind == BOOL || sp.kind == BOOL_F) && r.below(2)) {
                a.push_back(key);  // without a value
            } else if (takes && (style == 0 || style == 3)) {
                a.push_back(key);
                if (r.below(12))
                    a.push_back(v);
            } else if (style == 1 && m.inl && shrt && sp.s.size() == 1 && !v.empty()) {
                a.push_back(key + v);
            } else if (style == 2 && (m.inl || !r.below(6)) && !v.empty()) {
                a.push_back(key + ":" + v);
            } else {
                a.push_back(key + "=" + v);
            }
        }
    }
    // Now and then the same thing again and again.
    if (mostly && r.below(8) == 0) {
        int times = 1 + (int)r.below(r.below(3) ? 70 : r.below(4) ? 300 : 2100);
        if (r.below(2)) {
            std::vector<int> reps;
            for (int k = 0; k < m.nopts; k++) {
                if (m.specs[k].kind == REPSTR || m.specs[k].kind == REPINT)
                    reps.push_back(k);
            }
            if (!reps.empty()) {
                const Spec& sp = m.specs[reps[r.below(reps.size())]];
                for (int j = 0; j < times; j++) {
                    a.push_back(sp.s.empty() ? "--" + sp.l : "-" + sp.s);
                    a.push_back(std::to_string(j));
                }
            }
        }
        if (m.pass && r.below(2)) {
            a.push_back("--");
            for (int j = 0; j < times; j++)
                a.push_back((r.below(3) ? "p" : "--p") + std::to_string(j));
        }
        if (m.collect && r.below(2)) {
            size_t at = r.below(a.size() + 1), k = m.specs.size() - m.nopts;
            std::vector<std::string> x;
            for (; pos < k; pos++) {
                std::string v = value_for(r, m.specs[m.nopts + pos], true, true);
                x.push_back(v.empty() || v[0] == '-' || v[0] == '/' ? "12" : v);
            }
            for (int j = 0; j < times; j++)
                x.push_back("x" + std::to_string(j));
            a.insert(a.begin() + at, x.begin(), x.end());
        }
    }
    // Supply the positionals, more often than not.
    while (mostly && pos < m.specs.size() - m.nopts && r.below(8)) {
        std::string v = value_for(r, m.specs[m.nopts + pos++], true, true);
        if (v.empty() || v[0] == '-' || v[0] == '/')
            v = "12";
        a.insert(a.begin() + r.below(a.size() + 1), v);
    }
    return a;
}

static std::string strip(const char* s, const char* dashes) {
    if (!s)
        return "";
    return strncmp(s, dashes, strlen(dashes)) ? s : s + strlen(dashes);
}
__attribute__((noinline)) static void make_model(int w, int64_t seed, int nstatic) {
    Quiet q;
    Rng r((uint64_t)seed * 7 + 3);
    Model* m = new Model;
    m->help = r.below(3) != 0;
    m->inl = r.below(3) == 0;
    m->slash = r.below(3) == 0;
    m->collect = r.below(3) == 0;
    m->pass = r.below(3) == 0;
    m->usage_line = r.below(4) == 0;
    m->head = r.below(3) ? r.below(4) ? "This is what the program does." : "This is what the program does 100%% of %d times." : "";
    bool many = r.below(24) == 0 || nstatic > kSomeOpts;
    bool lengthy = r.below(12) == 0;
    m->nopts = many ? 10 + (int)r.below(kMaxOpts - 10) : (int)r.below(kSomeOpts + 1);
    if (m->nopts < nstatic)
        m->nopts = nstatic;
    int npos = (int)r.below(kMaxPos + 1);
    std::set<int> used;
    for (int k = 0; k < m->nopts; k++) {
        Spec s;
        do
            s.form = r.below(lengthy ? 3 : 30) ? (int)r.below(many ? kNMany : kNForms) : kNMany + (int)r.below(kNLong);
        while (used.count(s.form));
        used.insert(s.form);
        s.kind = (Kind)r.below(KINDS);
        s.s = strip(form_of(s.form).s, "-");
        s.l = strip(form_of(s.form).l, "--");
        if (k < nstatic)
            s.stat = k;
        s.name = s.l.empty() ? s.s : s.l;
        m->specs.push_back(s);
    }
    for (int k = 0; k < npos; k++) {
        Spec s;
        s.form = -1;
        s.kind = r.below(2) ? STRING : INT;
        s.name = kPos[k];
        if (nstatic && nstatic < kMaxStatic && !k)
            s.stat = nstatic;
        m->specs.push_back(s);
    }
    for (size_t k = 0; k < m->specs.size(); k++) {
        static const int words[] = {1, 3, 12, 40};
        int n = many ? 1 : words[r.below(4)];
        for (int j = 0; j < n; j++)
            m->specs[k].help += (j ? " h" : "h") + std::to_string(k) + "_" + std::to_string(j) + std::string(r.below(12), 'z') + (r.below(40) ? "" : std::string(60, 'y')) + (r.below(40) ? "" : "100%d%%") + ".";
        if (k < 8 && !r.below(3))  // a short one
            m->specs[k].help += std::string(" ") + "@#&~^!?}"[k];
    }
    g_w[w].m = m;
}
// Declares one option, for one parser or (with no further argument) for all; may throw.
template <typename... P>
static IOption* declare(const Spec& s, P&... p) {
    const char* sh = s.form < 0 ? nullptr : form_of(s.form).s;
    const char* lo = s.form < 0 ? nullptr : form_of(s.form).l;
    const char* h = s.help.c_str();
    if (s.form < 0) {
        if (s.kind == STRING)
            return new StringOption(p..., s.name.c_str(), h);
        return new IntOption(p..., s.name.c_str(), h);
    }
    switch (s.kind) {
        case TOGGLE: return new ToggleOption(p..., sh, lo, ke::Nothing(), h);
        case TOGGLE_T: return new ToggleOption(p..., sh, lo, ke::Some(true), h);
        case ENABLE: return new EnableOption(p..., sh, lo, false, h);
        case ENABLE_T: return new EnableOption(p..., sh, lo, true, h);
        case STRING: return new StringOption(p..., sh, lo, ke::Nothing(), h);
        case STRING_D: return new StringOption(p..., sh, lo, ke::Some(std::string("a default value that needs memory")), h);
        case INT: return new IntOption(p..., sh, lo, {}, h);
        case INT_D: return new IntOption(p..., sh, lo, ke::Some(-77), h);
        case BOOL: return new Option<bool>(p..., sh, lo, ke::Nothing(), h);
        case BOOL_F: return new Option<bool>(p..., sh, lo, ke::Some(false), h);
        case REPSTR: return new RepeatOption<std::string>(p..., sh, lo, h);
        case REPINT: return new RepeatOption<int>(p..., sh, lo, h);
        default: return new StopOption(p..., sh, lo, ke::Some(false), h);
    }
}
static void teardown(World& w) {
    delete w.parser;
    w.parser = nullptr;
    for (size_t k = 0; k < w.m->specs.size(); k++) {
        if (w.m->specs[k].stat < 0)
            delete w.opt[k];
        w.opt[k] = nullptr;
    }
}
// Makes a parser with all its options, or throws.
static void setup(World& w) {
    const Model& m = *w.m;
    try {
        w.parser = !m.help ? new Parser : m.head.empty() && m.nopts % 2 ? new Parser(nullptr) : new Parser(m.head.c_str());
        Parser& p = *w.parser;
        if (m.inl)
            p.enable_inline_values();
        if (m.slash)
            p.allow_slashes();
        if (m.collect)
            p.collect_extra_args();
        if (m.pass)
            p.allow_passthrough_args();
        if (m.usage_line)
            p.set_usage_line("[options] and so on");
        if (m.pass)
            p.add_usage_line("additional", "words of the last one");
        for (size_t k = 0; k < m.specs.size(); k++)
            w.opt[k] = m.specs[k].stat < 0 ? declare(m.specs[k], p) : g_static[m.specs[k].stat];
        if (g_static[0])
            p.reset();  // (they may have been used)
    } catch (...) {
        teardown(w);
        throw;
    }
}
__attribute__((noinline)) static void dirty(World& w, bool d, bool failed) {
    w.m->dirty = d;
    w.m->failed = failed;
}
__attribute__((noinline)) static std::string show_line(const std::vector<std::string>& a) {
    std::string r;
    for (const std::string& s : a)
        r += " " + show(s);
    return r.substr(0, 200);
}
template <typename A, typename B>
static bool same_list(const A& a, const B& b) {
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); i++) {
        if (!(a[i] == b[i]))
            return false;
    }
    return true;
}
// Compares what the options say with the model (|o| has no values: the defaults).
static void check_values(World& w, const Outcome& o, const char* prefix, const std::vector<std::string>* words = nullptr) {
    Quiet q;
    const Model& m = *w.m;
    std::string what = words ? prefix + show_line(*words) : prefix;
    for (size_t k = 0; k < m.specs.size(); k++) {
        const Spec& s = m.specs[k];
        Value v = o.vals.empty() ? Value() : o.vals[k];
        bool ok = true;
        switch (s.kind) {
            case TOGGLE:
            case TOGGLE_T:
            case STOP: {
                ToggleOption* t = (ToggleOption*)w.opt[k];
                ok = t->value() == (v.set ? v.b : s.kind == TOGGLE_T);
                break;
            }
            case ENABLE:
            case ENABLE_T:
                ok = ((EnableOption*)w.opt[k])->value() == (v.set ? v.b : s.kind == ENABLE_T);
                break;
            case STRING:
            case STRING_D: {
                StringOption* t = (StringOption*)w.opt[k];
                bool has = v.set || s.kind == STRING_D;
                ok = t->hasValue() == has && (!has || t->value() == (v.set ? v.str : "a default value that needs memory"));
                break;
            }
            case INT:
            case INT_D: {
                IntOption* t = (IntOption*)w.opt[k];
                bool has = v.set || s.kind == INT_D;
                ok = t->hasValue() == has && (!has || (t->value() == (v.set ? v.i : -77) && t->maybeValue().get() == t->value()));
                break;
            }
            case BOOL:
            case BOOL_F: {
                Option<bool>* t = (Option<bool>*)w.opt[k];
                bool has = v.set || s.kind == BOOL_F;
                ok = t->hasValue() == has && (!has || t->value() == (v.set && v.b));
                break;
            }
            case REPSTR: ok = same_list(((RepeatOption<std::string>*)w.opt[k])->values(), v.strs); break;
            case REPINT: ok = same_list(((const RepeatOption<int>*)w.opt[k])->values(), v.ints); break;
            default: break;
        }
        if (!ok)
            violation("value", "after %s, option %s (kind %d) has a wrong value", what.c_str(), s.name.c_str(), (int)s.kind);
    }
    if (!same_list(w.parser->extra_args(), o.extra))
        violation("extra", "after %s, there are %zu extra arguments instead of %zu, or others", what.c_str(), w.parser->extra_args().size(), o.extra.size());
    if (!same_list(w.parser->passthrough_args(), o.pass))
        violation("passthrough", "after %s, there are %zu arguments passed through instead of %zu, or others", what.c_str(),
                  w.parser->passthrough_args().size(), o.pass.size());
}

enum { PARSE, PARSE2, PARSE3, RESET, USAGE, HELPED, REBUILD, TAKE, NOPS };

struct Line {
    std::vector<std::string>* words;  // model heap
    Outcome* want;
    char** argv;                      // simulated heap
    int argc;
};
__attribute__((noinline)) static Line make_line(World& w, int64_t seed) {
    Line l;
    std::vector<std::string>* words;
    {
        Quiet q;
        words = new std::vector<std::string>(make_args_line(*w.m, seed));
        l.want = new Outcome(parse_model(*w.m, *words));
    }
    l.words = words;
    l.argc = (int)words->size() + 1;
    l.argv = (char**)arena_alloc(sizeof(char*) * (l.argc + 1));
    for (int i = 0; i <= l.argc; i++) {
        char* p = nullptr;
        if (i < l.argc) {
            const std::string* s;
            std::string prog;
            {
                Quiet q;
                prog = "prog";
                s = i ? &(*words)[i - 1] : &prog;
            }
            p = (char*)arena_alloc(s->size() + 1);
            if (!p)
                violation("harness", "simulated heap exhausted");
            Quiet q;
            memcpy(p, s->c_str(), s->size() + 1);
            prog = std::string();
        }
        l.argv[i] = p;
    }
    return l;
}
__attribute__((noinline)) static void drop_line(Line& l) {
    for (int i = 0; i < l.argc; i++)
        arena_free(l.argv[i]);
    arena_free(l.argv);
    Quiet q;
    delete l.words;
    delete l.want;
}
__attribute__((noinline)) static void bad_verdict(const Line& l, bool ok) {
    Quiet q;
    violation("verdict", "parsing%s %s", show_line(*l.words).c_str(), ok ? "succeeds" : "fails");
}
static bool call_parse(Parser& p, const Line& l, int how) {
    char** a = l.argv + 1;
    int n = l.argc - 1;
    switch (how) {
        case 1: {
            std::vector<const char*> v(a, a + n);
            return p.parse(v);
        }
        case 2: {
            std::vector<std::string> v(a, a + n);
            return p.parse(v);
        }
        case 3: {
            const char* z = nullptr;
            switch (n) {
                case 0: return p.parsev(z);
                case 1: return p.parsev(a[0], z);
                case 2: return p.parsev(a[0], a[1], z);
                case 3: return p.parsev(a[0], a[1], a[2], z);
                case 4: return p.parsev(a[0], a[1], a[2], a[3], z);
                case 5: return p.parsev(a[0], a[1], a[2], a[3], a[4], z);
                default: break;
            }
            return p.parse(l.argc, l.argv);
        }
        default: return p.parse(l.argc, l.argv);
    }
}

// Where usage() writes to.
struct Out {
    std::string* text;
    bool broken;
};
static ssize_t out_write(void* c, const char* b, size_t n) {
    Quiet q;
    Out* o = (Out*)c;
    if (o->broken)
        return 0;
    o->text->append(b, n);
    return (ssize_t)n;
}
static size_t count_of(const std::string& t, const std::string& w) {
    size_t n = 0;
    for (size_t at = t.find(w); at != std::string::npos; at = t.find(w, at + 1))
        n++;
    return n;
}
__attribute__((noinline)) static void check_help(const Model& m, const std::string& t) {
    Quiet q;
    if (!m.head.empty() && m.help && t.find(m.head) != 0)
        violation("usage", "the help does not start with its heading: %s", show(t).c_str());
    for (size_t k = 0; k < m.specs.size(); k++) {
        const Spec& s = m.specs[k];
        size_t at = 0;
        std::string w;
        for (size_t i = 0; i <= s.help.size(); i++) {
            if (i == s.help.size() || s.help[i] == ' ') {
                if (count_of(t, w) != 1)
                    violation("usage", "the help shows a word %zu times: %s", count_of(t, w), w.c_str());
                size_t f = t.find(w);
                if (f < at)
                    violation("usage", "the help shows words out of order: %s", w.c_str());
                at = f;
                w = "";
            } else {
                w += s.help[i];
            }
        }
        std::string v;
        if (s.kind >= STRING && s.kind != BOOL && s.kind != BOOL_F && s.kind != STOP) {
            v = "=" + s.name;
            for (char& c : v)
                c = c == '-' ? '_' : c >= 'a' && c <= 'z' ? (char)(c - 32) : c;
        }
        if (s.form < 0 ? !count_of(t, s.name) : (!s.s.empty() && !count_of(t, "-" + s.s)) || (!s.l.empty() && !count_of(t, "--" + s.l + v + " ")))
            violation("usage", "the help lacks an option (%s)", s.name.c_str());
    }
    if (m.pass && (!count_of(t, "additional") || !count_of(t, "words of the last one")))
        violation("usage", "the help lacks a line that was added");
    for (char c : t) {
        if (c != '\n' && (c < 32 || c > 126))
            violation("usage", "the help contains rubbish: %s", show(t).c_str());
    }
    // Lines fit, unless a single word does not.
    size_t b = 0;
    while (b < t.size()) {
        size_t e = t.find('\n', b);
        if (e == std::string::npos)
            violation("usage", "the help ends in the middle of a line");
        std::string line = t.substr(b, e - b);
        if (line.size() > 80 && line.find("Usage:") != 0 && line.find(". h") != std::string::npos)
            violation("usage", "a line of the help is too long: %s", show(line).c_str());
        b = e + 1;
    }
}
__attribute__((noinline)) static FILE* open_out(Out* o) {
    Quiet q;
    cookie_io_functions_t io = {nullptr, out_write, nullptr, nullptr};
    FILE* f = fopencookie(o, "w", io);
    if (!f)
        violation("harness", "fopencookie");
    setvbuf(f, nullptr, _IOLBF, 0);
    return f;
}
static void usage(World& w, const Line& l, const Outcome* o) {
    bool nobody = !o && l.argc % 4 == 3;  // without arguments
    Out out;
    {
        Quiet q;
        out.text = new std::string;
        out.broken = false;
    }
    if (fault(F_SYSCALL)) {
        out.broken = true;
        probe("usage-unwritable");
    }
    FILE* f = open_out(&out);
    bool threw = false;
    try {
        dirty_stack();
        w.parser->usage(f, nobody ? 0 : l.argc, nobody ? nullptr : l.argv);
    } catch (std::bad_alloc&) {
        threw = true;
        probe("usage-no-memory");
    }
    {
        Quiet q;
        fclose(f);
        const std::string& t = *out.text;
        bool asked = false;
        for (const std::string& a : *l.words)
            asked |= a == "-h" || a == "--help";
        bool error = o && !o->ok && !o->culprit.empty() && !(w.m->help && asked);
        if (!threw && !out.broken) {
            if (t.find(nobody ? "Usage:" : "Usage: prog ") == std::string::npos)
                violation("usage", "the help lacks the usage line: %s", show(t).c_str());
            if (w.m->usage_line && !count_of(t, "[options] and so on"))
                violation("usage", "the help lacks the usage line that was set: %s", show(t).c_str());
            size_t at = t.find("Usage:");
            std::string first = t.substr(at, t.find('\n', at) - at);
            at = 0;
            for (size_t k = w.m->nopts; k < w.m->specs.size() && !w.m->usage_line; k++) {
                at = first.find(" " + w.m->specs[k].name, at);
                if (at == std::string::npos)
                    violation("usage", "the usage line lacks %s, or has it too early: %s", w.m->specs[k].name.c_str(), show(first).c_str());
            }
            size_t e = t.find("\nerror: ");
            if (error != (e != std::string::npos))
                violation("message", "usage() %s an error after%s: %s", error ? "lacks" : "shows", show_line(*l.words).c_str(), show(t).c_str());
            if (error && t.find(o->culprit, e) == std::string::npos)
                violation("message", "the error does not mention %s: %s", show(o->culprit).c_str(), show(t.substr(e + 1)).c_str());
            if (error)
                probe("message");
            else
                check_help(*w.m, t), probe("help");
        }
        delete out.text;
    }
}
static void body(int, const Op& op) {
    int wi = clampi(op.a, g_worlds), code = clampi(op.code, NOPS);
    World& w = g_w[wi];
    std::lock_guard<ke::Mutex> lock(*w.lock);
    if (!w.parser || code == REBUILD) {
        teardown(w);
        uint32_t nomem = thread_hits(F_NEW);
        try {
            setup(w);
            SIM_EXPECT(thread_hits(F_NEW) == nomem, "failure", "a parser was made without the memory it needed");
        } catch (std::bad_alloc&) {
            SIM_EXPECT(thread_hits(F_NEW) != nomem, "spurious-exception", "bad_alloc although there was memory");
            probe("setup-failed");
            return;
        }
        dirty(w, false, false);
        Outcome none;
        check_values(w, none, "construction");
        if (code == REBUILD)
            return;
    }
    Outcome none;
    if (w.m->dirty || code == RESET) {
        w.parser->reset();
        check_values(w, none, "reset");
        dirty(w, false, false);
        probe("reset");
        if (code == RESET)
            return;
    }
    Line l = make_line(w, op.b);
    bool ok = false, threw = false;
    if (code == USAGE) {
        usage(w, l, nullptr);
    } else {
        uint32_t nomem = thread_hits(F_NEW);
        dirty(w, true, true);
        try {
            ok = call_parse(*w.parser, l, clampi(op.c, 4));
        } catch (std::bad_alloc&) {
            SIM_EXPECT(thread_hits(F_NEW) != nomem, "spurious-exception", "bad_alloc although there was memory");
            threw = true;
            probe("parse-failed");
        }
        if (!threw) {
            if (ok != l.want->ok)
                bad_verdict(l, ok);
            if (ok || l.want->culprit.empty())
                check_values(w, *l.want, "parsing", l.words);
            probe(ok ? "accepted" : l.want->culprit.empty() ? "halted" : "rejected");
            dirty(w, true, false);
            if (code == HELPED)
                usage(w, l, l.want);
            if (code == TAKE) {
                for (size_t k = 0; k < w.m->specs.size(); k++) {
                    if (w.m->specs[k].kind == REPSTR)
                        std::vector<std::string> taken = std::move(((RepeatOption<std::string>*)w.opt[k])->values());
                }
                std::vector<std::string> taken = std::move(w.parser->passthrough_args());
            }
        }
    }
    drop_line(l);
}
static void run(const Program& p) {
    int nt = 1 + clampi(p.p(1), kMaxT);
    g_worlds = 1 + clampi(p.p(2), kWorlds);
    set_max_steps(3000000);
    int stat = clampi(p.p(8), 40);
    int nstatic = stat ? 1 + clampi(stat, stat < 5 ? 4 : kMaxStatic) : 0;
    if (nstatic)
        g_worlds = 1;
    for (int w = 0; w < g_worlds; w++)
        make_model(w, p.p(3 + w), nstatic);
    memset(g_static, 0, sizeof(g_static));
    if (nstatic) {
        for (const Spec& s : g_w[0].m->specs) {
            if (s.stat >= 0)
                g_static[s.stat] = declare(s);
        }
        probe("static");
    }
    size_t base = live_blocks();
    for (int w = 0; w < g_worlds; w++) {
        g_w[w].parser = nullptr;
        memset(g_w[w].opt, 0, sizeof(g_w[w].opt));
        g_w[w].lock = new ke::Mutex;
    }
    enable_fault(F_NEW);
    enable_fault(F_SYSCALL);
    enable_fault(F_STALL);
    run_threads(p, nt, body);
    disable_faults();
    set_no_preempt(true);
    for (int w = 0; w < g_worlds; w++) {
        // Once nothing fails any more, all is well again.
        if (!g_w[w].parser)
            setup(g_w[w]);
        g_w[w].parser->reset();
        Line l = make_line(g_w[w], p.p(7) + w);
        bool ok = call_parse(*g_w[w].parser, l, 0);
        if (ok != l.want->ok)
            bad_verdict(l, ok);
        if (ok)
            check_values(g_w[w], *l.want, "parsing", l.words);
        drop_line(l);
        teardown(g_w[w]);
        delete g_w[w].lock;
    }
    for (IOption* o : g_static)
        delete o;
    // (The list of the static options is for good.)
    SIM_EXPECT(nstatic ? live_blocks() < base : live_blocks() == base, "leak", "%zu blocks leaked: %s", live_blocks() - base, describe_live().c_str());
}
static void gen(Rng& r, Program& p) {
    int nt = (int)r.below(kMaxT);
    p.params = {(int64_t)r.below(3), nt, (int64_t)r.below(kWorlds), (int64_t)r.below(1 << 20), (int64_t)r.below(1 << 20), (int64_t)r.below(1 << 20),
                (int64_t)r.below(2), (int64_t)r.below(1 << 20), r.chance(0.15) ? 1 + (int64_t)(r.below(8) ? r.below(4) : r.below(39)) : 0};
    for (int t = 0; t <= nt; t++) {
        int n = 1 + (int)r.below(7);
        for (int k = 0; k < n; k++)
            p.ops.push_back(mkop(t, (int)r.below(NOPS), (int64_t)r.below(kWorlds), (int64_t)r.below(1 << 30), (int64_t)r.below(4)));
    }
}
SIM_SCENARIO(argparser, "argparser", gen, run);
}  // namespace scen_argparser
