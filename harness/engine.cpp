#include "engine.hpp"

#include <atomic>
#include <cerrno>
#include <cstdio>
#include <ctime>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" void __asan_poison_memory_region(const volatile void *, size_t) __attribute__((weak));

namespace pbt {
Variant g_variant = V_REL;
bool g_thorough = false;
unsigned g_worker = 0, g_workers = 1;
static double g_deadline = 0; // wall-clock time at which a worker stops starting cases
static const char *const VNAMES[] = {"rel", "gcc", "wrap", "m32", "arm", "arm32", "debug", "cost", "asan", "tsan", "fuzz"};

// ---------------------------------------------------------------- shared state of a worker
static const size_t MAXCH = 1 << 17, MAXHASH = 1 << 22, MAXLAB = 400, MAXSAMP = 8;
struct Shared
{
    std::atomic<uint64_t> cur, done, ticks;
    uint64_t evals, nontriv, inconc, discard;
    uint32_t outcome; // of the last case
    uint32_t failmem;
    char msg[4096], desc[16384];
    uint64_t nch;
    uint64_t ch[MAXCH];
    uint32_t nlab;
    struct { char name[60]; uint64_t n; } lab[MAXLAB];
    uint32_t nsamp;
    char samp[MAXSAMP][1600];
    uint32_t nfind;
    char find[8][64];
    uint64_t nhash;
    uint64_t hash[MAXHASH];
};
static Shared *sh;
static void *xmap(size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) perror("mmap"), _exit(3);
    return p;
}

static inline uint64_t mix(uint64_t x) {
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL;
    x ^= x >> 27; x *= 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
static uint64_t hstr(const char *s, uint64_t h) {
    for (; *s; s++) h = mix(h ^ (uint8_t)*s) + 0x9e3779b97f4a7c15ULL;
    return h;
}

void Src::seed(uint64_t s) {
    mode = RANDOM;
    st[0] = mix(s + 0x9e3779b97f4a7c15ULL);
    st[1] = mix(st[0] + 0x632be59bd9b4e019ULL) | 1;
}
uint64_t Src::raw() {
    uint64_t a = st[0], b = st[1];
    st[0] = b;
    a ^= a << 23;
    st[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return mix(st[1] + b);
}
// the high half of a product
static uint64_t mulhi(uint64_t a, uint64_t b) {
    uint64_t al = (uint32_t)a, ah = a >> 32, bl = (uint32_t)b, bh = b >> 32, m = ah * bl + (al * bl >> 32), k = al * bh + (uint32_t)m;
    return ah * bh + (m >> 32) + (k >> 32);
}
uint64_t Src::draw(uint64_t n) {
    uint64_t v = 0;
    if (n == 1) v = 0;
    else if (parent) v = parent->draw(n);
    else if (mode == RANDOM && forced) {
        v = force_v;
        forced = false;
    }
    else if (mode == RANDOM) {
        v = raw();
        if (n) v = mulhi(v, n);
    }
    else if (mode == LIST) {
        v = li < list.size() ? list[li] : 0;
        li++;
        if (n && v >= n) v = n - 1;
    }
    else {
        int k = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ULL << 32) ? 4 : 8;
        for (int i = 0; i < k && bi < bn; i++) v |= (uint64_t)b[bi++] << (8 * i);
        if (n) v %= n;
    }
    if (n == 1) return 0; // not a choice
    if (shared_rec && sh && sh->nch < MAXCH) sh->ch[sh->nch++] = v;
    if (rec) rec->push_back(v);
    return v;
}

// ---------------------------------------------------------------- Case
Case::Case(Src *s) : src(s) {
    if (g_variant == V_ASAN || g_variant == V_FUZZ) mm = MM_EXACT;
}
uint64_t Case::enumerate(uint64_t n) {
    if (n > 1 && src->mode == Src::RANDOM && !src->parent) src->force((g_worker + idx * g_workers) % n);
    return pick(n);
}
int Case::weighted(std::initializer_list<int> w) {
    int sum = 0;
    for (int x : w) sum += x;
    int v = (int)pick(sum), i = 0;
    for (int x : w) {
        if (v < x) return i;
        v -= x;
        i++;
    }
    return 0;
}
size_t Case::big(size_t block) {
    if (deep != BIG || bigs >= 3 || !chance(1, 2)) return 0;
    bigs++;
    if (chance(2, 3)) { // around powers of two
        size_t k = 16 + pick(10), d = pick(2 * block + 3);
        return ((size_t)1 << k) + d - block - 1;
    }
    return 65536 + pick((size_t)24 << 20);
}
void run_life(Case &c, PropFn fn) {
    switch (c.weighted({4, 4, 2})) {
    case 0: c.life = 1 + c.pick(900); break;
    case 1: c.life = (1u << (4 + c.pick(13))) + c.pick(9); break;
    default: c.life = 60000 + c.pick(16000);
    }
    Src s; // so that the choices stay few
    s.seed(c.pick(1ULL << 32));
    Src *was = c.src;
    c.src = &s;
    c.deep = Case::LIFE;
    c.note("%llu operations", (unsigned long long)c.life);
    c.label("%s", c.life > 65535 ? "65536 operations and more" : c.life > 4096 ? "4097 to 65535 operations" : c.life > 256 ? "257 to 4096 operations" : "up to 256 operations");
    fn(c);
    c.src = was;
}
size_t Case::len(size_t block, size_t maxlen) {
    size_t n;
    if (deep == BIG && (n = big(block))) return n;
    if (deep == LIFE && pick(30)) return pick(3) ? pick(7) : pick(block + 2);
    switch (weighted({30, 25, 30, 10, 5})) {
    case 0: n = pick(10); break;
    case 1: n = pick(3 * block + 1); break;
    case 2: { // around multiples of the block
        size_t k = pick(21);
        int d = (int)pick(19);
        n = k * block + (d & 1 ? (size_t)-((d + 1) / 2) : (size_t)(d / 2));
        if ((ptrdiff_t)n < 0) n = 0;
        break;
    }
    case 3: { // around powers of two
        int top = 0;
        while ((2ULL << top) <= maxlen) top++;
        size_t k = pick(top + 1);
        int d = (int)pick(25) - 12;
        n = (1ULL << k) + d;
        if ((ptrdiff_t)n < 0) n = 0;
        break;
    }
    default: n = pick(maxlen + 1);
    }
    return n > maxlen ? maxlen : n;
}
static void fill_random(Bytes &b, uint64_t seed) {
    Src s;
    s.seed(seed);
    size_t i = 0;
    for (; i + 8 <= b.size(); i += 8) {
        uint64_t v = s.draw(0);
        memcpy(&b[i], &v, 8);
    }
    uint64_t v = s.draw(0);
    for (; i < b.size(); i++, v >>= 8) b[i] = (uint8_t)v;
}
Bytes Case::bytes(size_t n) {
    Bytes b(n, 0);
    if (!n) return b;
    static const uint8_t magic[] = {0, 0x80, 0xff, 0x36, 0x5c, 0x7f, 1, '=', 0x0a, '0', 0xfe, 0x40};
    switch (weighted({2, 2, 10, 2, 1, 3, 2, 2, 6, 2, 3})) {
    case 0: break; // zero bytes
    case 1: {
        uint8_t v = (uint8_t)pick(256);
        memset(b.data(), v, n);
        break;
    }
    case 2: fill_random(b, pick(1ULL << 32)); break;
    case 3: { // sparse
        int k = 1 + (int)pick(4);
        while (k--) {
            size_t i = pick(n);
            b[i] = (uint8_t)(1u << pick(8));
        }
        break;
    }
    case 4: memset(b.data(), 0xff, n); break;
    case 5: // text
        fill_random(b, pick(1ULL << 32));
        for (auto &x : b) x = (uint8_t)(0x20 + x % 95);
        break;
    case 6: { // trailing zero bytes
        fill_random(b, pick(1ULL << 32));
        size_t k = 1 + pick(n < 9 ? n : 9);
        memset(b.data() + n - k, 0, k);
        break;
    }
    case 7: { // leading zero bytes
        fill_random(b, pick(1ULL << 32));
        size_t k = 1 + pick(n < 9 ? n : 9);
        memset(b.data(), 0, k);
        break;
    }
    case 8: // literal, as far as that is affordable
        if (n > 24) fill_random(b, pick(1ULL << 32));
        else for (auto &x : b) x = (uint8_t)pick(256);
        break;
    case 9: {
        uint8_t v = (uint8_t)pick(256);
        for (auto &x : b) x = v++;
        break;
    }
    default:
        fill_random(b, pick(1ULL << 32));
        for (auto &x : b) x = magic[x % sizeof magic];
    }
    return b;
}
std::string Case::text(size_t n) {
    Bytes b = bytes(n);
    for (auto &x : b) if (!x) x = (uint8_t)('a' + (&x - b.data()) % 26);
    return std::string(b.begin(), b.end());
}
uint64_t Case::weird64() {
    switch (weighted({3, 3, 4, 3, 2})) {
    case 0: return pick(20);
    case 1: return (1ULL << pick(64)) + pick(9) - 4;
    case 2: return u64();
    case 3: return u64() >> pick(64);
    default: {
        uint64_t v = 0;
        for (int i = 0; i < 8; i++) {
            static const uint8_t t[] = {0, 1, 0x7f, 0x80, 0xff};
            v = v << 8 | t[pick(5)];
        }
        return v;
    }
    }
}
void Case::label(const char *fmt, ...) {
    if (!in_shared || !sh) return;
    char buf[60];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (uint32_t i = 0; i < sh->nlab; i++)
        if (!strcmp(sh->lab[i].name, buf)) {
            sh->lab[i].n++;
            return;
        }
    if (sh->nlab < MAXLAB) {
        strcpy(sh->lab[sh->nlab].name, buf);
        sh->lab[sh->nlab].n = 1;
        sh->nlab++;
    }
}
void Case::note(const char *fmt, ...) {
    if (!want_desc) return;
    char buf[3000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (up) return up->note("%s", buf);
    if (desc.size() < 15000) {
        if (!desc.empty()) desc += "; ";
        desc += buf;
    }
    if (in_shared && sh) {
        size_t l = desc.size() < sizeof sh->desc - 1 ? desc.size() : sizeof sh->desc - 1;
        memcpy(sh->desc, desc.data(), l);
        sh->desc[l] = 0;
    }
}
void Case::finding(const char *key) {
    for (uint32_t i = 0; i < sh->nfind; i++) if (!strcmp(sh->find[i], key)) return;
    if (sh->nfind < 8) snprintf(sh->find[sh->nfind++], 64, "%s", key);
}
void Case::op() {
    nops++;
    if (sh) sh->ticks.fetch_add(1, std::memory_order_relaxed);
    if (sched) sched->yield(sched_id);
    if (fill >= 0) scribble(fill);
    if (err >= 0) errno = err;
}
void Case::observe(const void *p, size_t n) {
    if (transcript) transcript->push_back(Bytes((const uint8_t *)p, (const uint8_t *)p + n));
}
void Case::fail(const char *fmt, ...) {
    char buf[3000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Fail{buf, false};
}
void Case::memfail(const char *fmt, ...) {
    char buf[3000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Fail{buf, true};
}
std::string show(const uint8_t *p, size_t n, size_t max) {
    std::string s = ref::hex(p, n < max ? n : max);
    if (n > max) s += "...";
    return s + "(" + std::to_string(n) + ")";
}
std::string show_text(const std::string &t, size_t max) {
    std::string s = "\"";
    for (size_t i = 0; i < t.size() && i < max; i++) {
        char b[8];
        unsigned char ch = (unsigned char)t[i];
        if (ch < 0x20 || ch >= 0x7f || ch == '"' || ch == '\\') snprintf(b, sizeof b, "\\x%02x", ch);
        else b[0] = (char)ch, b[1] = 0;
        s += b;
    }
    s += t.size() > max ? "\"..." : "\"";
    return s + "(" + std::to_string(t.size()) + ")";
}
void Case::same(const char *what, const void *got, size_t n, const std::function<Bytes()> &exp) {
    observe(got, n);
    if (!oracle) return;
    Bytes e = exp();
    if (e.size() == n && (!n || !memcmp(e.data(), got, n))) return;
    const uint8_t *g = (const uint8_t *)got;
    size_t i = 0;
    while (i < n && i < e.size() && g[i] == e[i]) i++;
    fail("%s: expected %s, got %s, first difference at byte %zu", what, show(e).c_str(), show(g, n).c_str(), i);
}
void Case::same(const char *what, const std::string &got, const std::function<std::string()> &exp) {
    observe(got.data(), got.size());
    if (!oracle) return;
    std::string e = exp();
    if (e == got) return;
    size_t i = 0;
    while (i < got.size() && i < e.size() && got[i] == e[i]) i++;
    fail("%s: expected %s, got %s, first difference at %zu", what, show_text(e).c_str(), show_text(got).c_str(), i);
}
void Case::same(const char *what, uint64_t got, const std::function<uint64_t()> &exp) {
    observe(&got, 8);
    if (!oracle) return;
    uint64_t e = exp();
    if (e != got) fail("%s: expected %llu, got %llu", what, (unsigned long long)e, (unsigned long long)got);
}
void Case::require(const char *what, bool ok) {
    uint8_t v = ok;
    observe(&v, 1);
    if (oracle && !ok) fail("%s", what);
}

// ---------------------------------------------------------------- memory
static const size_t PG = 4096;
static uint8_t *map_pages(size_t data, size_t &total) {
    total = data + 2 * PG;
    uint8_t *b = (uint8_t *)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) throw std::bad_alloc();
    mprotect(b, PG, PROT_NONE);
    mprotect(b + total - PG, PG, PROT_NONE);
    return b;
}
static void *xmalloc(size_t n) {
    void *p = malloc(n);
    if (!p) throw std::bad_alloc();
    return p;
}
In::In(Case &c_, const void *src, size_t n_, bool null_if_empty) : c(c_), n(n_) {
    if (!n && null_if_empty) {
        p = nullptr;
        return;
    }
    if (c.mem_fatal) copy.assign((const uint8_t *)src, (const uint8_t *)src + n);
    size_t off = c.pick(8);
    if (c.mm == MM_GUARD_R || c.mm == MM_GUARD_L) {
        size_t data = (n + PG - 1) / PG * PG;
        if (!data) data = PG;
        base = map_pages(data, total);
        mapped = true;
        p = c.mm == MM_GUARD_R ? base + total - PG - n : base + PG;
        if (n) memcpy(p, src, n);
        mprotect(base + PG, data, PROT_READ);
        return;
    }
    base = (uint8_t *)xmalloc(n + off);
    p = base + off;
    if (n) memcpy(p, src, n);
}
In::~In() {
    if (mapped) munmap(base, total);
    else free(base);
}
void In::verify() {
    if (!c.mem_fatal) return;
    if (n && copy.size() == n && memcmp(p, copy.data(), n)) c.memfail("an input was modified: %s became %s", show(copy).c_str(), show(p, n).c_str());
}
static const uint8_t CAN = 0xC9;
Out::Out(Case &c_, size_t n_, size_t slack, bool aligned) : c(c_), n(n_ + slack) {
    int f = c.fill >= 0 ? c.fill : 0x5A;
    size_t off = aligned ? 0 : c.pick(8);
    if (c.mm == MM_GUARD_R || c.mm == MM_GUARD_L) {
        size_t data = (n + PG - 1) / PG * PG;
        if (!data) data = PG;
        base = map_pages(data, total);
        mapped = true;
        memset(base + PG, CAN, data);
        p = c.mm == MM_GUARD_R ? base + total - PG - n : base + PG;
        lead = (size_t)(p - (base + PG));
        tail = data - lead - n;
    }
    else {
        lead = off;
        if (c.mm == MM_CANARY) lead += 32, tail = 64;
        total = lead + n + tail;
        base = (uint8_t *)xmalloc(total);
        if (total) memset(base, CAN, total);
        p = base + lead;
    }
    if (n) memset(p, f, n);
}
Out::~Out() {
    if (mapped) munmap(base, total);
    else free(base);
}
void Out::check() {
    if (!c.mem_fatal) return;
    for (size_t i = 1; i <= lead; i++)
        if (p[-(ptrdiff_t)i] != CAN) c.memfail("byte %zu before the output was changed", i);
    for (size_t i = 0; i < tail; i++)
        if (p[n + i] != CAN) c.memfail("byte %zu after the end of the %zu-byte output was changed to %02x", i, n, p[n + i]);
}
__attribute__((noinline)) void scribble(int fill) {
    volatile unsigned char a[24576];
    memset((void *)a, fill, sizeof a);
    asm volatile("" : : "r"(a) : "memory");
}

// ---------------------------------------------------------------- clock and allocator
thread_local int64_t fake_now = -1;
static __thread int64_t gate_fail, gate_times, gate_seen;
static __thread bool gate_open, gate_fired;
static std::atomic<int64_t> gate_live{0};
uint8_t g_new_fill;
bool g_new_fill_on;
void AllocGate::on(int64_t f, int64_t times) {
    gate_fail = f;
    gate_times = times;
    gate_seen = 0;
    gate_fired = false;
    gate_open = true;
}
void AllocGate::off() { gate_open = false; }
int64_t AllocGate::seen() { return gate_seen; }
bool AllocGate::fired() { return gate_fired; }
int64_t AllocGate::live() { return gate_live.load(); }
static std::atomic<int64_t> gate_missized{0};
int64_t AllocGate::missized() { return gate_missized.load(); }

extern "C" uint64_t pbt_work __attribute__((weak)); // p_cost.cpp
extern "C" bool pbt_counting __attribute__((weak));
struct Hdr
{
    uint64_t magic, size;
};
static const uint64_t TAG = 0x7a6c1f0e5d4b3a29ULL, UNTAG = 0x1122334455667788ULL, DEAD = 0xdeadbeefdeadbeefULL;
static void *do_new(size_t n, bool nothrow) {
    bool tag = false;
    if (gate_open) {
        gate_seen++;
        if (gate_fail && gate_seen >= gate_fail && gate_seen - gate_fail < gate_times) {
            gate_fired = true;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
        tag = true;
    }
    if (&pbt_counting && pbt_counting) pbt_work += 1 + n / 8;
    Hdr *h = (Hdr *)malloc(n + sizeof(Hdr));
    if (!h) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    h->magic = tag ? TAG : UNTAG;
    h->size = n;
    if (tag) gate_live.fetch_add(1);
    if (g_new_fill_on) memset(h + 1, g_new_fill, n);
    if (__asan_poison_memory_region) __asan_poison_memory_region(h, sizeof(Hdr)); // the harness is not instrumented
    return h + 1;
}
static void do_delete(void *p, size_t n = SIZE_MAX) {
    if (!p) return;
    Hdr *h = (Hdr *)p - 1;
    if (n != SIZE_MAX && n != h->size) gate_missized.fetch_add(1);
    if (h->magic == TAG) gate_live.fetch_sub(1);
    else if (h->magic != UNTAG) {
        static const char m[] = "operator delete: pointer freed twice or not from operator new\n";
        ssize_t r = write(2, m, sizeof m - 1);
        (void)r;
        abort();
    }
    h->magic = DEAD;
    memset(p, 0xD7, h->size < 4096 ? h->size : 4096); // whoever still uses it shall notice
    asm volatile("" : : "r"(p) : "memory");
    free(h);
}
} // namespace pbt

void *operator new(size_t n) { return pbt::do_new(n, false); }
void *operator new[](size_t n) { return pbt::do_new(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return pbt::do_new(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return pbt::do_new(n, true); }
void operator delete(void *p) noexcept { pbt::do_delete(p); }
void operator delete[](void *p) noexcept { pbt::do_delete(p); }
void operator delete(void *p, size_t n) noexcept { pbt::do_delete(p, n); }
void operator delete[](void *p, size_t n) noexcept { pbt::do_delete(p, n); }
void operator delete(void *p, const std::nothrow_t &) noexcept { pbt::do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { pbt::do_delete(p); }

extern "C" {
time_t time(time_t *t) noexcept {
    time_t v;
    if (pbt::fake_now >= 0) v = (time_t)pbt::fake_now;
    else {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        v = ts.tv_sec;
    }
    if (t) *t = v;
    return v;
}
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
    if (pbt::fake_now >= 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        ts->tv_sec = (time_t)pbt::fake_now;
        ts->tv_nsec = 500000000;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *__restrict tv, void *__restrict) noexcept {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
int timespec_get(struct timespec *ts, int base) noexcept {
    clock_gettime(CLOCK_REALTIME, ts);
    return base;
}
}

// ---------------------------------------------------------------- running cases
namespace pbt {
std::vector<Prop> &props() {
    static std::vector<Prop> v;
    return v;
}
std::vector<Body> &bodies() {
    static std::vector<Body> v;
    return v;
}
enum Outcome : uint32_t { O_OK, O_FAIL, O_CRASH, O_HANG, O_INCONC };
static const char *const ONAMES[] = {"ok", "fail", "crash", "hang", "inconclusive"};

static Outcome run_case(const Prop &P, Src &src, uint64_t idx, bool want_desc, bool count) {
    Case c(&src);
    c.idx = idx;
    c.want_desc = want_desc;
    sh->nch = 0;
    sh->desc[0] = 0;
    sh->msg[0] = 0;
    sh->cur = idx;
    src.shared_rec = true;
    Outcome o = O_OK;
    try {
        P.fn(c);
    }
    catch (Fail &f) {
        o = O_FAIL;
        sh->failmem = f.mem;
        snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
    }
    catch (Discard &) {
        if (count) sh->discard++;
    }
    catch (std::bad_alloc &) {
        o = O_INCONC;
        snprintf(sh->msg, sizeof sh->msg, "out of memory");
    }
    catch (std::exception &e) {
        o = O_FAIL;
        snprintf(sh->msg, sizeof sh->msg, "unexpected exception: %s", e.what());
    }
    fake_now = -1;
    AllocGate::off();
    sh->outcome = o;
    if (count) {
        sh->evals++;
        if (o == O_INCONC) sh->inconc++;
        if (c.nontriv && o == O_OK) {
            sh->nontriv++;
            uint64_t h = hstr(P.id, 7);
            for (uint64_t i = 0; i < sh->nch; i++) h = mix(h ^ sh->ch[i]) + 0x9e3779b97f4a7c15ULL * (i + 1);
            if (sh->nhash < MAXHASH) sh->hash[sh->nhash++] = h;
            if (want_desc && sh->nsamp < MAXSAMP) snprintf(sh->samp[sh->nsamp++], sizeof sh->samp[0], "%s", c.desc.c_str());
        }
    }
    sh->done.fetch_add(1);
    return o;
}

void in_fresh_process(Case &c, const std::function<void(Case &)> &fn) {
    uint64_t seed = c.pick(1ULL << 32);
    int p[2];
    if (pipe(p)) throw std::bad_alloc();
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) throw std::bad_alloc();
    if (!pid) {
        close(p[0]);
        Src s;
        s.seed(seed);
        Case k(&s);
        k.in_shared = false;
        k.want_desc = true;
        std::string m;
        int st = 0;
        try {
            fn(k);
        }
        catch (Fail &f) {
            st = 42;
            m = f.msg;
        }
        catch (Discard &) {
            st = 43;
        }
        catch (std::bad_alloc &) {
            st = 44;
        }
        catch (std::exception &e) {
            st = 42;
            m = std::string("unexpected exception: ") + e.what();
        }
        m = k.desc + '\0' + m;
        size_t w = 0;
        while (w < m.size()) {
            ssize_t n = write(p[1], m.data() + w, m.size() - w);
            if (n <= 0) break;
            w += (size_t)n;
        }
        _exit(st);
    }
    close(p[1]);
    std::string m;
    char buf[4096];
    for (;;) {
        ssize_t n = read(p[0], buf, sizeof buf);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) break;
        m.append(buf, (size_t)n);
    }
    close(p[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    sh->ticks.fetch_add(1);
    size_t z = m.find('\0');
    std::string desc = m.substr(0, z), msg = z == m.npos ? "" : m.substr(z + 1);
    c.note("%s", desc.c_str());
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0)) return;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) c.fail("%s", msg.c_str());
    if (WIFEXITED(st) && WEXITSTATUS(st) == 43) throw Discard();
    if ((WIFEXITED(st) && WEXITSTATUS(st) == 44) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) throw std::bad_alloc();
    ssize_t n = pread(2, buf, sizeof buf - 1, 0);
    buf[n > 0 ? n : 0] = 0;
    if (WIFSIGNALED(st)) c.fail("a process that just began to use the library was killed by signal %s\n%.2500s", strsignal(WTERMSIG(st)), buf);
    c.fail("a process that just began to use the library ended with status %d\n%.2500s", WEXITSTATUS(st), buf);
}

struct Job // what a child does
{
    bool list;
    std::vector<uint64_t> choices;
    uint64_t seed, start, count; // random cases [start, start + count)
    bool want_desc, stats;
};
static std::string g_stderr;

static double now_wall() {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static double cpu_of(pid_t p) {
    char path[64], buf[1024];
    snprintf(path, sizeof path, "/proc/%d/stat", (int)p);
    int fd = open(path, O_RDONLY);
    if (fd < 0) return 0;
    ssize_t n = read(fd, buf, sizeof buf - 1);
    close(fd);
    if (n <= 0) return 0;
    buf[n] = 0;
    char *q = strrchr(buf, ')');
    unsigned long u = 0, s = 0;
    if (!q || sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s) != 2) return 0;
    return (double)(u + s) / (double)sysconf(_SC_CLK_TCK);
}

static uint64_t case_seed(uint64_t seed, uint64_t idx) { return mix(seed ^ mix(idx + 0x51ed27)); }

static void child_main(const Prop &P, const Job &j) {
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    if (j.list) {
        Src s;
        s.mode = Src::LIST;
        s.list = j.choices;
        Outcome o = run_case(P, s, 0, true, false);
        _exit(o == O_OK ? 0 : 42);
    }
    uint64_t step = j.count / 4 ? j.count / 4 : 1;
    for (uint64_t i = j.start; i < j.start + j.count; i++) {
        if (g_deadline > 0 && i > j.start && now_wall() > g_deadline) break;
        Src s;
        s.seed(case_seed(j.seed, i));
        bool d = j.want_desc || i < 4 || i % step == step / 2;
        Outcome o = run_case(P, s, i, d, j.stats);
        if (o == O_FAIL) _exit(42);
    }
    _exit(0);
}

// Runs a child to its end; *last = number of the case it ended in
static Outcome run_child(const Prop &P, const Job &j, uint64_t *last = nullptr) {
    int efd = memfd_create("stderr", 0);
    sh->done = 0;
    sh->ticks = 0;
    sh->cur = j.start;
    sh->outcome = O_OK;
    sh->msg[0] = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) perror("fork"), _exit(3);
    if (!pid) {
        setpgid(0, 0);
        dup2(efd, 2);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        size_t l = strlen(P.id);
        if (l > 3 && !strcmp(P.id + l - 3, "big") && g_variant < V_ASAN && getrlimit(RLIMIT_STACK, &rl) == 0) {
            rl.rlim_cur = 768 << 10; // huge data do not belong on the stack
            setrlimit(RLIMIT_STACK, &rl);
        }
        child_main(P, j);
        _exit(0);
    }
    setpgid(pid, pid);
    int status;
    uint64_t seen = ~0ULL;
    double w0 = now_wall(), c0 = 0;
    const char *killed = nullptr;
    bool inconc = false;
    useconds_t nap = 200;
    for (;;) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) break;
        if (r < 0 && errno != EINTR) perror("waitpid"), _exit(3);
        usleep(nap);
        if (nap < 20000) nap += 200;
        uint64_t t = sh->ticks + sh->done;
        double w = now_wall();
        if (t != seen) {
            seen = t;
            w0 = w;
            c0 = -1;
            continue;
        }
        if (w - w0 < 1) continue;
        double cpu = cpu_of(pid);
        if (c0 < 0) c0 = cpu;
        double lim = P.cpu_limit * (g_variant < V_ASAN ? 1 : 4);
        if (cpu - c0 > lim) killed = "endless computation";
        else if (w - w0 > 60 && cpu - c0 < 0.5) killed = "blocked for 60 seconds without computing";
        else if (w - w0 > 40 * lim) killed = "no progress", inconc = true;
        if (killed) {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            break;
        }
    }
    kill(-pid, SIGKILL); // threads and helpers of the case
    if (last) *last = sh->cur;
    g_stderr.clear();
    char buf[6000];
    ssize_t n = pread(efd, buf, sizeof buf, 0);
    if (n > 0) g_stderr.assign(buf, (size_t)n);
    close(efd);
    if (killed) {
        snprintf(sh->msg, sizeof sh->msg, "%s", killed);
        return inconc ? O_INCONC : O_HANG;
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return O_OK;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 42) return (Outcome)sh->outcome;
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) return O_INCONC; // memory ran out
    std::string m;
    if (WIFSIGNALED(status)) m = std::string("killed by signal ") + strsignal(WTERMSIG(status));
    else m = "exit status " + std::to_string(WEXITSTATUS(status));
    if (!g_stderr.empty()) m += "\n" + g_stderr.substr(0, 3000);
    if (g_stderr.find("out of memory") != std::string::npos && g_stderr.find("AddressSanitizer") != std::string::npos) return O_INCONC;
    snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str());
    return O_CRASH;
}
static bool bad(Outcome o) { return o == O_FAIL || o == O_CRASH || o == O_HANG; }

static std::vector<uint64_t> recorded() { return std::vector<uint64_t>(sh->ch, sh->ch + sh->nch); }

static bool better(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}
struct Found
{
    bool have = false;
    Outcome o;
    std::string msg, desc;
    std::vector<uint64_t> ch;
    int runs = 0, reproduced = 0, tries = 0;
    bool prefix = false; // needs the preceding cases
    uint64_t start = 0, idx = 0;
};
static int g_shrink_runs;
static bool attempt(const Prop &P, const std::vector<uint64_t> &cand, Found &f) {
    Job j{true, cand, 0, 0, 1, true, false};
    int tries = g_variant == V_TSAN ? 3 : 1;
    while (tries--) {
        g_shrink_runs++;
        Outcome o = run_child(P, j);
        if (!bad(o)) continue;
        std::vector<uint64_t> r = recorded();
        if (!better(r, f.ch)) return false;
        f.o = o;
        f.msg = sh->msg;
        f.desc = sh->desc;
        f.ch = r;
        return true;
    }
    return false;
}
static void shrink(const Prop &P, Found &f) {
    if (f.o == O_HANG || P.cpu_limit > 200) return; // too slow
    double end = now_wall() + 15;
    g_shrink_runs = 0;
    bool progress = true;
    auto over = [&] { return now_wall() > end || g_shrink_runs > 1500; };
    while (progress && !over()) {
        progress = false;
        for (size_t k = f.ch.size(); k >= 1 && !over(); k /= 2) // remove runs of choices
            for (size_t i = 0; i + k <= f.ch.size() && !over();) {
                std::vector<uint64_t> t = f.ch;
                t.erase(t.begin() + (ptrdiff_t)i, t.begin() + (ptrdiff_t)(i + k));
                if (attempt(P, t, f)) progress = true;
                else i += k;
            }
        for (size_t k = 8; k >= 2 && !over(); k /= 2)
            for (size_t i = 0; i + k <= f.ch.size() && !over(); i += k) {
                std::vector<uint64_t> t = f.ch;
                bool any = false;
                for (size_t q = i; q < i + k; q++) any |= t[q] != 0, t[q] = 0;
                if (any && attempt(P, t, f)) progress = true;
            }
        for (size_t i = 0; i < f.ch.size() && !over(); i++) { // make single choices smaller
            if (!f.ch[i]) continue;
            std::vector<uint64_t> t = f.ch;
            t[i] = 0;
            if (attempt(P, t, f)) {
                progress = true;
                continue;
            }
            uint64_t lo = 0, hi = i < f.ch.size() ? f.ch[i] : 0; // binary search for the least failing value
            int steps = 0;
            while (lo + 1 < hi && !over() && steps++ < 40 && i < f.ch.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                t = f.ch;
                t[i] = mid;
                if (attempt(P, t, f)) progress = true, hi = i < f.ch.size() ? f.ch[i] : 0;
                else lo = mid;
            }
        }
    }
}

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        char b[8];
        if (ch == '"' || ch == '\\') o += '\\', o += (char)ch;
        else if (ch == '\n') o += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) snprintf(b, sizeof b, "\\u%04x", ch), o += b;
        else o += (char)ch;
    }
    return o + "\"";
}
static void write_result(const char *path, const Prop &P, uint64_t seed, uint64_t count, const Found &f, const std::string &unrep, double wall) {
    FILE *o = fopen(path, "w");
    if (!o) perror(path), _exit(3);
    fprintf(o, "{\"property\": \"%s\", \"variant\": \"%s\", \"seed\": %llu, \"planned\": %llu, \"evaluations\": %llu, \"nontrivial\": %llu, "
               "\"inconclusive\": %llu, \"discarded\": %llu, \"wall\": %.2f, \"rule\": %s,\n\"labels\": {",
            P.id, VNAMES[g_variant], (unsigned long long)seed, (unsigned long long)count, (unsigned long long)sh->evals, (unsigned long long)sh->nontriv,
            (unsigned long long)sh->inconc, (unsigned long long)sh->discard, wall, jstr(P.rule).c_str());
    for (uint32_t i = 0; i < sh->nlab; i++) fprintf(o, "%s%s: %llu", i ? ", " : "", jstr(sh->lab[i].name).c_str(), (unsigned long long)sh->lab[i].n);
    fprintf(o, "},\n\"samples\": [");
    for (uint32_t i = 0; i < sh->nsamp; i++) fprintf(o, "%s%s", i ? ",\n" : "", jstr(sh->samp[i]).c_str());
    fprintf(o, "],\n\"findings\": [");
    for (uint32_t i = 0; i < sh->nfind; i++) fprintf(o, "%s%s", i ? ", " : "", jstr(sh->find[i]).c_str());
    fprintf(o, "],\n\"unreproduced\": %s", jstr(unrep).c_str());
    if (f.have) {
        fprintf(o, ",\n\"failure\": {\"property\": \"%s\", \"variant\": \"%s\", \"outcome\": \"%s\", \"message\": %s, \"case\": %s, \"reproduced\": \"%d of %d\", "
                   "\"shrink_runs\": %d, \"needs_preceding_cases\": %s, \"seed\": %llu, \"start\": %llu, \"index\": %llu, \"choices\": [",
                P.id, VNAMES[g_variant], ONAMES[f.o], jstr(f.msg).c_str(), jstr(f.desc).c_str(), f.reproduced, f.tries, f.runs, f.prefix ? "true" : "false",
                (unsigned long long)seed, (unsigned long long)f.start, (unsigned long long)f.idx);
        for (size_t i = 0; i < f.ch.size(); i++) fprintf(o, "%s%llu", i ? ", " : "", (unsigned long long)f.ch[i]);
        fprintf(o, "]}");
    }
    fprintf(o, "}\n");
    fclose(o);
    std::string hp = std::string(path) + ".hashes";
    o = fopen(hp.c_str(), "wb");
    if (o) {
        fwrite(sh->hash, 8, sh->nhash, o);
        fclose(o);
    }
}

static const Prop &find(const std::string &id) {
    for (auto &p : props())
        if (id == p.id) return p;
    fprintf(stderr, "no property %s here\n", id.c_str());
    _exit(3);
}

static int cmd_run(const Prop &P, uint64_t vseed, unsigned worker, uint64_t count, const char *out) {
    double t0 = now_wall();
    uint64_t seed = mix(hstr(VNAMES[g_variant], hstr(P.id, vseed)) + worker * 0x9e3779b97f4a7c15ULL);
    Found f;
    std::string unrep;
    uint64_t start = 0;
    int unrep_n = 0, oom = 0;
    while (start < count) {
        Job j{false, {}, seed, start, count - start, false, true};
        uint64_t last = start;
        Outcome o = run_child(P, j, &last);
        if (o == O_OK) break;
        if (o == O_INCONC) {
            sh->inconc++;
            if (++oom > 5) break;
            start = last + 1;
            continue;
        }
        // a failure: confirm it
        Found g;
        g.o = o;
        g.msg = sh->msg;
        g.ch = recorded();
        g.start = start;
        g.idx = last;
        std::vector<uint64_t> orig = g.ch;
        int want = 3, tries = o == O_HANG ? 2 : g_variant == V_TSAN ? 12 : !strncmp(P.id, "B05", 3) || !strncmp(P.id, "X02", 3) ? 12 : 3;
        if (o == O_HANG) want = 2;
        if (P.cpu_limit > 200) want = tries = 1;
        for (g.tries = 0; g.tries < tries && g.reproduced < want; g.tries++) {
            Job r{true, orig, 0, 0, 1, true, false};
            Outcome q = run_child(P, r);
            if (bad(q)) {
                g.reproduced++;
                g.o = q;
                g.msg = sh->msg;
                g.desc = sh->desc;
                std::vector<uint64_t> n = recorded();
                if (better(n, g.ch)) g.ch = n;
            }
            else if (g.desc.empty()) g.desc = sh->desc;
        }
        if (g.reproduced) {
            f = g;
            f.have = true;
            shrink(P, f);
            f.runs = g_shrink_runs;
            break;
        }
        // perhaps earlier cases are needed: run the last k cases before it again
        bool again = false;
        for (uint64_t k = 1; !again && o != O_HANG; k *= 4) {
            uint64_t from = last >= start + k ? last - k : start;
            int rep = 0;
            for (int t = 0; t < 2; t++) {
                Job r{false, {}, seed, from, last - from + 1, true, false};
                if (bad(run_child(P, r))) rep++;
            }
            if (rep) {
                f = g;
                f.have = again = f.prefix = true;
                f.reproduced = rep;
                f.tries = 2;
                f.start = from;
                f.msg = sh->msg;
                f.desc = sh->desc;
            }
            if (from == start) break;
        }
        if (again) break;
        // whether threads meet is chance, but a wrong answer or a race that was seen is one
        if ((!strncmp(P.id, "B05", 3) || !strncmp(P.id, "X02", 3)) && (o == O_FAIL || g.msg.find("ThreadSanitizer: data race") != std::string::npos)) {
            f = g;
            f.have = true;
            break;
        }
        unrep += std::string(ONAMES[o]) + " in case " + std::to_string(last) + " not reproduced: " + g.msg.substr(0, 400) + "\n";
        if (++unrep_n > 5) break;
        start = last + 1;
    }
    write_result(out, P, seed, count, f, unrep, now_wall() - t0);
    return f.have ? 1 : 0;
}

// The choices are read as whitespace-separated numbers
static int cmd_replay(const Prop &P, const char *path, int tries) {
    std::vector<uint64_t> ch;
    FILE *i = fopen(path, "r");
    if (!i) perror(path), _exit(3);
    unsigned long long v;
    while (fscanf(i, "%llu", &v) == 1) ch.push_back(v);
    fclose(i);
    int rep = 0;
    for (int t = 0; t < tries; t++) {
        Job j{true, ch, 0, 0, 1, true, false};
        Outcome o = run_child(P, j);
        printf("%s: %s\ncase: %s\n", ONAMES[o], sh->msg, sh->desc);
        if (bad(o)) {
            rep++;
            break;
        }
    }
    return rep ? 1 : 0;
}
static int cmd_range(const Prop &P, uint64_t seed, uint64_t from, uint64_t to) {
    Job j{false, {}, seed, from, to - from + 1, true, false};
    Outcome o = run_child(P, j);
    printf("%s: %s\ncase: %s\n", ONAMES[o], sh->msg, sh->desc);
    return bad(o) ? 1 : 0;
}
// A fuzzer's input, run as a case: prints the recorded choices
static int cmd_bytes(const Prop &P, const char *path) {
    FILE *i = fopen(path, "rb");
    if (!i) perror(path), _exit(3);
    Bytes b;
    int ch;
    while ((ch = fgetc(i)) != EOF) b.push_back((uint8_t)ch);
    fclose(i);
    pid_t pid = fork();
    if (!pid) {
        Src s;
        s.mode = Src::BYTES;
        s.b = b.data();
        s.bn = b.size();
        Outcome o = run_case(P, s, 0, true, false);
        _exit(o == O_OK ? 0 : 42);
    }
    int st;
    waitpid(pid, &st, 0);
    for (uint64_t k = 0; k < sh->nch; k++) printf("%llu ", (unsigned long long)sh->ch[k]);
    printf("\n");
    return st ? 1 : 0;
}

static int engine_main(int argc, char **argv) {
    std::string prop, out, file;
    uint64_t seed = 1, count = 1000, from = 0, to = 0;
    unsigned &worker = g_worker;
    double limit = 0;
    int tries = 1;
    std::string cmd = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") prop = v;
        else if (k == "--variant") {
            for (size_t q = 0; q < sizeof VNAMES / sizeof *VNAMES; q++) if (v == VNAMES[q]) g_variant = (Variant)q;
        }
        else if (k == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--worker") worker = (unsigned)atoi(v.c_str());
        else if (k == "--workers") g_workers = (unsigned)atoi(v.c_str());
        else if (k == "--limit") limit = atof(v.c_str());
        else if (k == "--count") count = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--out") out = v;
        else if (k == "--file") file = v;
        else if (k == "--from") from = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--to") to = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--tries") tries = atoi(v.c_str());
    }
    if (limit > 0) g_deadline = now_wall() + limit;
    const char *tier = getenv("VERIF_TIER");
    g_thorough = tier && !strcmp(tier, "thorough");
    sh = (Shared *)xmap(sizeof(Shared));
    if (cmd == "list") {
        for (auto &p : props()) printf("%s\n", p.id);
        for (auto &b : bodies()) printf("body %s\n", b.name);
        return 0;
    }
    const Prop &P = find(prop);
    if (cmd == "run") return cmd_run(P, seed, worker, count, out.c_str());
    if (cmd == "replay") return cmd_replay(P, file.c_str(), tries);
    if (cmd == "range") return cmd_range(P, seed, from, to);
    if (cmd == "bytes") return cmd_bytes(P, file.c_str());
    return 3;
}
} // namespace pbt

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    using namespace pbt;
    static const Prop *P = [] {
        g_variant = V_FUZZ;
        sh = (Shared *)xmap(sizeof(Shared));
        const char *id = getenv("PBT_PROP");
        return &find(id ? id : "");
    }();
    Src s;
    s.mode = Src::BYTES;
    s.b = d;
    s.bn = n;
    if (run_case(*P, s, 0, false, false) == O_FAIL) {
        fprintf(stderr, "property failed: %s\n", sh->msg);
        abort();
    }
    return 0;
}
#else
int main(int argc, char **argv) { return pbt::engine_main(argc, argv); }
#endif
