// X09: the same results whatever the state of the process around
#include "common.hpp"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <ctime>
#include <locale>
#include <locale.h>
#include <unistd.h>
#if defined(__SSE__)
#include <xmmintrin.h>
#endif
using namespace pbt;

namespace {
// Locales compiled by run.py: 8-bit characters with letters of their own, other numbers
std::vector<std::string> find_locales() {
    std::vector<std::string> v = {"C.utf8"};
    char buf[4096];
    ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1);
    if (n <= 0) return v;
    std::string d(buf, (size_t)n);
    d = d.substr(0, d.rfind('/')) + "/locales";
    for (const char *l : {"tr", "de", "fa", "ja"})
        if (!access((d + "/" + l + "/LC_CTYPE").c_str(), R_OK)) v.push_back(l);
    if (v.size() > 1) setenv("LOCPATH", d.c_str(), 1);
    return v;
}
struct Punct : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "ja"; }
    std::string do_falsename() const override { return "nein"; }
};
// Other classes and cases of the characters: Latin letters are none, some marks are digits, i has its own capital
struct Kinds : std::ctype<char>
{
    mask t[table_size];
    Kinds() : std::ctype<char>(t) {
        std::copy(classic_table(), classic_table() + table_size, t);
        for (int i = 'A'; i <= 'Z'; i++) t[i] = t[i + 32] = std::ctype_base::punct;
        for (int i = '0'; i <= '9'; i += 2) t[i] = std::ctype_base::punct;
        for (int i : {'=', '-', '_', ',', '.'}) t[i] = (mask)(std::ctype_base::space | std::ctype_base::digit | std::ctype_base::xdigit);
    }
    char do_toupper(char x) const override { return x == 'i' ? '\xdd' : x; }
    char do_tolower(char x) const override { return x == 'I' ? '\xfd' : x; }
    const char *do_toupper(char *p, const char *e) const override {
        for (; p < e; p++) *p = do_toupper(*p);
        return e;
    }
    const char *do_tolower(char *p, const char *e) const override {
        for (; p < e; p++) *p = do_tolower(*p);
        return e;
    }
};
const char *const vars[][2] = {{"TZ", "XXX+11:59"}, {"LANG", "tr_TR"}, {"LC_ALL", "tr"}, {"LC_NUMERIC", "de"}, {"POSIXLY_CORRECT", "1"}, {"HOME", ""}, {"TMPDIR", "/nowhere"}};

struct Surroundings
{
    std::string loc;       // C locale
    bool thread = false;   // only of the thread
    int facets = 0;        // of the global C++ locale: 1 numbers, 2 characters, 4 those of the C locale
    int round = FE_TONEAREST;
    bool tiny = false;     // denormal numbers are zero
    bool traps = false;
    int err = -1;
    unsigned env = 0;

    static const std::vector<std::string> &locales() {
        static const std::vector<std::string> v = find_locales();
        return v;
    }
    explicit Surroundings(Case &c) {
        auto &v = locales();
        static const int rounds[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
        static const int errs[] = {0, EINTR, ENOMEM, ERANGE, EINVAL, EILSEQ, ENOENT, 32767};
        if (c.chance(3, 5)) loc = v[c.pick(v.size())], thread = c.chance(1, 3);
        if (c.chance(2, 5)) facets = 1 + (int)c.pick(loc.empty() || thread ? 3 : 7);
        if (c.chance(2, 5)) round = rounds[c.pick(4)];
        tiny = c.chance(1, 8);
        traps = c.chance(1, 8);
        if (c.chance(2, 5)) err = errs[c.pick(8)];
        if (c.chance(1, 3)) env = 1 + (unsigned)c.pick((1u << (sizeof vars / sizeof *vars)) - 1);
        std::string t;
        if (!loc.empty()) t += " locale " + loc + (thread ? " of the thread" : "");
        if (facets) t += std::string(" C++ locale with other") + (facets & 1 ? " numbers" : "") + (facets & 2 ? " characters" : "") + (facets & 4 ? " names" : "");
        if (round != FE_TONEAREST) t += round == FE_DOWNWARD ? " rounding down" : round == FE_UPWARD ? " rounding up" : " rounding to zero";
        if (tiny) t += " denormals are zero";
        if (traps) t += " floating-point traps";
        if (err >= 0) t += " errno " + std::to_string(err);
        if (env) t += " environment " + std::to_string(env);
        c.note("[surroundings:%s]", t.c_str());
        if (!loc.empty()) c.label("locale %s%s", loc.c_str(), thread ? " of the thread" : "");
        if (facets & 1) c.label("other numbers in C++");
        if (facets & 2) c.label("other characters in C++");
        if (round != FE_TONEAREST) c.label("other rounding");
        if (traps) c.label("floating-point traps");
        if (err >= 0) c.label("errno set");
        if (env) c.label("environment variables");
    }
    bool plain() const { return loc.empty() && !facets && round == FE_TONEAREST && !tiny && !traps && err < 0 && !env; }
};
// Puts them up around the process, and takes them away
struct Around
{
    const Surroundings &s;
    locale_t old = (locale_t)0, mine = (locale_t)0;
    fenv_t fe;
#if defined(__SSE__)
    unsigned csr = _mm_getcsr();
#endif
    std::vector<std::pair<const char *, std::string>> back;
    std::vector<const char *> gone;

    explicit Around(const Surroundings &s) : s(s) {
        fegetenv(&fe);
        for (size_t i = 0; i < sizeof vars / sizeof *vars; i++) {
            if (!(s.env >> i & 1)) continue;
            const char *o = getenv(vars[i][0]);
            if (o) back.push_back({vars[i][0], o});
            else gone.push_back(vars[i][0]);
            setenv(vars[i][0], vars[i][1], 1);
        }
        if (s.env) tzset();
        if (!s.loc.empty()) {
            if (s.thread) {
                mine = newlocale(LC_ALL_MASK, s.loc.c_str(), (locale_t)0);
                if (mine) old = uselocale(mine);
            }
            else setlocale(LC_ALL, s.loc.c_str());
        }
        if (s.facets) {
            std::locale l = s.facets & 4 ? std::locale(s.loc.c_str()) : std::locale::classic();
            if (s.facets & 1) l = std::locale(l, new Punct);
            if (s.facets & 2) l = std::locale(l, new Kinds);
            std::locale::global(l);
        }
        if (s.traps) {
            feclearexcept(FE_ALL_EXCEPT);
            feenableexcept(FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW);
        }
        if (s.round != FE_TONEAREST) fesetround(s.round);
#if defined(__SSE__)
        if (s.tiny) _mm_setcsr(_mm_getcsr() | 0x8040);
#endif
    }
    ~Around() {
#if defined(__SSE__)
        _mm_setcsr(csr);
#endif
        fesetenv(&fe);
        if (s.facets) std::locale::global(std::locale::classic());
        if (mine) uselocale(old), freelocale(mine);
        setlocale(LC_ALL, "C");
        for (auto &b : back) setenv(b.first, b.second.c_str(), 1);
        for (auto g : gone) unsetenv(g);
        if (s.env) tzset();
    }
};
} // namespace

PROP(X09, "a call is made and something is compared, and something around differs") {
    const Body &b = choose_body(c, false);
    Surroundings s(c);
    std::vector<uint64_t> rec;
    std::vector<Bytes> t1, t2;
    c.note("[%s]", b.name);
    c.label("operations of %s", b.name);
    auto run = [&](Src *src, std::vector<Bytes> &t, bool first) {
        Case k(src);
        k.up = &c;
        k.want_desc = first && c.want_desc;
        k.in_shared = false;
        k.oracle = false;
        k.mm = MM_CANARY;
        k.transcript = &t;
        if (first) {
            run_body(b, k);
            return k.nops;
        }
        k.err = s.err;
        Around a(s);
        run_body(b, k);
        return k.nops;
    };
    Src s1, s2;
    s1.parent = c.src;
    s1.rec = &rec;
    uint64_t ops = run(&s1, t1, true);
    s2.mode = Src::LIST;
    s2.list = rec;
    run(&s2, t2, false);
    size_t n = t1.size() < t2.size() ? t1.size() : t2.size();
    for (size_t i = 0; i < n; i++)
        if (t1[i] != t2[i]) c.fail("observation %zu of %zu depends on the surroundings: %s in plain ones, %s", i + 1, t1.size(), show(t1[i]).c_str(), show(t2[i]).c_str());
    if (t1.size() != t2.size()) c.fail("%zu observations in plain surroundings, %zu in these", t1.size(), t2.size());
    if (ops && n && !s.plain()) c.nontrivial();
}
