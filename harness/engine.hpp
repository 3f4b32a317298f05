// Property engine: every generated value is a draw from a choice source, so that any case can be replayed,
// shrunk and driven by a fuzzer. See ../DESIGN.md.
#pragma once
#include <csetjmp>
#include <cstdarg>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <string>
#include <utility>
#include <vector>

#include "ref.hpp"

namespace pbt {
using ref::Bytes;

struct Fail // the property is broken
{
    std::string msg;
    bool mem; // memory outside the documented extent was changed
};
struct Discard {}; // the case is outside the domain

class Src
{
public:
    enum Mode { RANDOM, LIST, BYTES };
    Mode mode = RANDOM;
    uint64_t st[2] = {0, 0};
    std::vector<uint64_t> list;
    size_t li = 0;
    const uint8_t *b = nullptr;
    size_t bn = 0, bi = 0;
    bool shared_rec = false;           // record into the worker's shared memory
    std::vector<uint64_t> *rec = nullptr; // or/and into a vector
    Src *parent = nullptr;             // draws come from another source
    void seed(uint64_t s);
    void force(uint64_t v) { forced = true, force_v = v; } // the next random draw
    uint64_t draw(uint64_t n); // uniform in [0, n); n = 0: any 64-bit value
private:
    bool forced = false;
    uint64_t force_v = 0;
    uint64_t raw();
};

enum Variant { V_REL, V_GCC, V_WRAP, V_M32, V_ARM, V_ARM32, V_DEBUG, V_COST, V_ASAN, V_TSAN, V_FUZZ };
extern Variant g_variant;
extern bool g_thorough;

enum MemMode { MM_CANARY, MM_EXACT, MM_GUARD_R, MM_GUARD_L };

class Case;
struct Sched // decides which of several cases running in threads goes on
{
    virtual ~Sched() {}
    virtual void yield(int id) = 0;
};

class Case
{
public:
    Src *src;
    uint64_t idx = 0; // number of the case in its worker
    bool want_desc = false, nontriv = false;
    bool oracle = true;      // compare with the expectations (otherwise only record)
    bool in_shared = true;   // report into the worker's shared memory
    MemMode mm = MM_CANARY;
    bool mem_fatal = false;  // a changed byte outside the output fails the case
    int fill = -1;           // >= 0: prior content of buffers, contexts and stack
    int err = -1;            // >= 0: errno before each call
    Sched *sched = nullptr;
    int sched_id = 0;
    uint64_t nops = 0;
    Case *up = nullptr; // descriptions go there
    std::vector<Bytes> *transcript = nullptr;
    std::string desc;
    enum Deep { SHALLOW, BIG, LIFE };
    Deep deep = SHALLOW;  // a few huge inputs, or a long life of an object
    uint64_t life = 0;    // operations of a long life
    unsigned bigs = 0;    // huge inputs so far

    explicit Case(Src *s);
    uint64_t pick(uint64_t n) { return src->draw(n); }
    uint64_t enumerate(uint64_t n); // like pick, but the cases of the workers take the values in turn
    uint64_t u64() { return src->draw(0); }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + src->draw(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return src->draw(den) >= den - num; } // 0 means no
    int weighted(std::initializer_list<int> w);
    size_t len(size_t block, size_t maxlen);
    size_t big(size_t block); // length of a huge input, or 0 if it is not to be one
    size_t steps(uint64_t lo, uint64_t n) { return deep == LIFE ? (size_t)life : (size_t)(lo + pick(n)); }
    Bytes bytes(size_t n);
    Bytes data(size_t block, size_t maxlen) { return bytes(len(block, maxlen)); }
    std::string text(size_t n); // without NUL
    uint64_t weird64();         // interesting 64-bit values

    void label(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void finding(const char *key); // a defect that is perhaps listed as known
    void nontrivial() { nontriv = true; }
    void op(); // to be called before every library call
    void observe(const void *p, size_t n);
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void memfail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    // comparison with a lazily computed expectation; always recorded in the transcript
    void same(const char *what, const void *got, size_t n, const std::function<Bytes()> &exp);
    void same(const char *what, const std::string &got, const std::function<std::string()> &exp);
    void same(const char *what, uint64_t got, const std::function<uint64_t()> &exp);
    void require(const char *what, bool ok);
};
std::string show(const uint8_t *p, size_t n, size_t max = 48);
inline std::string show(const Bytes &b) { return show(b.data(), b.size()); }
std::string show_text(const std::string &s, size_t max = 80);

// An input of a library function: a private copy, placed according to the memory mode, that must not change
class In
{
    Case &c;
    uint8_t *base = nullptr, *p;
    size_t n, total = 0;
    bool mapped = false;
    Bytes copy;

public:
    In(Case &c, const void *src, size_t n, bool null_if_empty = false);
    In(Case &c, const Bytes &b) : In(c, b.data(), b.size()) {}
    explicit In(Case &c, const std::string &s) : In(c, s.c_str(), s.size() + 1) {} // as a C string
    In(const In &) = delete;
    ~In();
    const uint8_t *u8() const { return p; }
    const char *cs() const { return (const char *)p; }
    size_t size() const { return n; }
    void verify(); // throws if modified, where that matters
};
// An output of n bytes, of which the last `slack` may be written without being specified
class Out
{
    Case &c;
    uint8_t *base = nullptr, *p;
    size_t n, total = 0, lead = 0, tail = 0;
    bool mapped = false;

public:
    Out(Case &c, size_t n, size_t slack = 0, bool aligned = false);
    Out(const Out &) = delete;
    ~Out();
    uint8_t *u8() { return p; }
    char *cs() { return (char *)p; }
    void check(); // throws if anything around it changed, where that matters
};
void scribble(int fill); // fills unused stack

// Storage for contexts and objects with prior content
template <class T> class Place
{
    alignas(T) unsigned char mem[sizeof(T) + 32];
    T *o = nullptr;

public:
    explicit Place(Case &c) { memset(mem, c.fill >= 0 ? c.fill : 0xA7, sizeof mem); }
    Place(const Place &) = delete;
    ~Place() { if (o) o->~T(); }
    void *raw() { return mem; }
    template <class... A> T &make(A &&...a) {
        if (o) o->~T(), o = nullptr;
        return *(o = new (mem) T(std::forward<A>(a)...));
    }
    void destroy() { if (o) o->~T(), o = nullptr; }
    T &operator*() { return *o; }
    T *operator->() { return o; }
};

// Clock seen by the library (time, clock_gettime, gettimeofday, timespec_get)
extern thread_local int64_t fake_now; // < 0: not faked
struct FakeClock
{
    FakeClock() { fake_now = 0; }
    ~FakeClock() { fake_now = -1; }
};

// Allocations made between gate_on and gate_off are counted; the one numbered fail_at (from 1) fails
struct AllocGate
{
    static void on(int64_t fail_at, int64_t times = 1); // that many in a row fail
    static void off();
    static int64_t seen();      // allocations since on()
    static bool fired();        // an allocation was made to fail since on()
    static int64_t live();      // counted allocations not yet freed
    static int64_t missized();  // deletions with another size than that of the allocation
};
extern uint8_t g_new_fill; // fill byte of operator new when g_new_fill_on
extern bool g_new_fill_on;

typedef void (*PropFn)(Case &);
struct Prop
{
    const char *id, *rule;
    PropFn fn;
    unsigned cpu_limit;
};
std::vector<Prop> &props();
struct Reg
{
    Reg(const char *id, const char *rule, PropFn fn, unsigned cpu = 30) { props().push_back({id, rule, fn, cpu}); }
};
#define PROP(ID, RULE) static void prop_##ID(pbt::Case &c); static pbt::Reg reg_##ID(#ID, RULE, prop_##ID); static void prop_##ID(pbt::Case &c)
#define PROP_CPU(ID, CPU, RULE) static void prop_##ID(pbt::Case &c); static pbt::Reg reg_##ID(#ID, RULE, prop_##ID, CPU); static void prop_##ID(pbt::Case &c)

// The body of a property with huge inputs, and with a long life
void run_life(Case &c, PropFn fn);
#define PROP_BIG(ID) static void big_##ID(pbt::Case &c) { c.deep = pbt::Case::BIG; prop_##ID(c); } \
    static pbt::Reg regbig_##ID(#ID "big", "as " #ID, big_##ID, 120);
#define PROP_LIFE(ID) static void life_##ID(pbt::Case &c) { pbt::run_life(c, prop_##ID); } \
    static pbt::Reg reglife_##ID(#ID "life", "as " #ID, life_##ID, 120);

// Runs a function in a process that has not used the library, and fails if it fails there
void in_fresh_process(Case &c, const std::function<void(Case &)> &fn);

// ASCII letters, whatever the locale
inline char lower(char x) { return x >= 'A' && x <= 'Z' ? (char)(x + 32) : x; }
inline char upper(char x) { return x >= 'a' && x <= 'z' ? (char)(x - 32) : x; }

// Bodies: units of work shared by several properties
struct Body
{
    const char *name;
    PropFn fn;
    int weight;
    bool threads; // the body starts threads or forks, or depends on the process: not to be run beside others
};
std::vector<Body> &bodies();
struct RegBody
{
    RegBody(const char *name, PropFn fn, int weight = 1, bool threads = false) { bodies().push_back({name, fn, weight, threads}); }
};
const Body &choose_body(Case &c, bool threads_too);
// Runs a body as a part of another case; functional failures are left to the property of the body
void run_body(const Body &b, Case &k);
#define BODY(NAME) static void body_##NAME(pbt::Case &c); static pbt::RegBody regb_##NAME(#NAME, body_##NAME); static void body_##NAME(pbt::Case &c)
// A body that is itself the check of a property
#define PROP_BODY(ID, RULE) static void prop_##ID(pbt::Case &c); static pbt::Reg reg_##ID(#ID, RULE, prop_##ID); \
    static pbt::RegBody regb_##ID(#ID, prop_##ID); static void prop_##ID(pbt::Case &c)
} // namespace pbt
