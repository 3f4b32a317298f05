// X01 X02 X03: memory extents, isolation, independence of prior memory contents.
// The operations are the bodies of the other checks, run under other conditions.
#include "common.hpp"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/otp/hotp.h"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/utils.h"
#include "libpgfe/utils.hpp"
#include <algorithm>
#include <malloc.h>
#include <pthread.h>
#include <thread>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
using namespace api;
using namespace gen;

namespace pbt {
const Body &choose_body(Case &c, bool threads_too) {
    std::vector<Body> &v = bodies();
    static std::vector<int> order; // by name, so that the draws do not depend on the order of the object files
    if (order.empty()) {
        for (size_t i = 0; i < v.size(); i++) order.push_back((int)i);
        std::sort(order.begin(), order.end(), [&](int a, int b) { return strcmp(v[(size_t)a].name, v[(size_t)b].name) < 0; });
    }
    for (;;) {
        const Body &b = v[(size_t)order[c.pick(order.size())]];
        if (threads_too || !b.threads) return b;
    }
}
void run_body(const Body &b, Case &k) {
    try {
        b.fn(k);
    }
    catch (Fail &f) {
        if (f.mem && k.mem_fatal) throw;
        std::string s = "failed: " + f.msg;
        k.observe(s.data(), s.size());
    }
    catch (Discard &) {
        k.observe("discarded", 9);
    }
    catch (std::bad_alloc &) {
        throw;
    }
    catch (std::exception &e) {
        std::string s = std::string("exception: ") + e.what();
        k.observe(s.data(), s.size());
    }
}
} // namespace pbt

// ---------------------------------------------------------------- X01
PROP(X01, "every case: the operations of another property with guarded buffers; at least one call") {
    const Body &b = choose_body(c, true);
    Case k(c.src);
    k.up = &c;
    k.want_desc = c.want_desc;
    k.in_shared = false;
    k.oracle = false;
    k.mem_fatal = true;
    if (g_variant == V_ASAN || g_variant == V_FUZZ) k.mm = c.weighted({5, 1, 1}) ? (c.pick(2) ? MM_GUARD_R : MM_GUARD_L) : MM_EXACT;
    else k.mm = c.weighted({2, 1, 1}) == 0 ? MM_CANARY : c.pick(2) ? MM_GUARD_R : MM_GUARD_L;
    static const char *const names[] = {"canaries", "exact heap blocks", "guard page behind", "guard page in front"};
    c.note("[%s, %s]", b.name, names[k.mm]);
    c.label("%s", names[k.mm]);
    c.label("operations of %s", b.name);
    run_body(b, k);
    if (k.nops) c.nontrivial();
}

// Long inputs with a small stack
namespace {
struct BigJob
{
    Case *c;
    std::exception_ptr e;
};
void big_work(Case &c) {
    using namespace libpgfe;
    size_t n = (1u << 20) * (1 + c.pick(12)) + c.pick(1000);
    int what = (int)c.enumerate(16), a = (int)c.pick(ref::A_FIXED);
    int b = (int)c.pick(ref::B_COUNT);
    static const char *const names[] = {"hash", "HMAC message and key", "HOTP secret", "base C functions", "base objects", "Blowfish objects", "hexadecimal C functions", "hexadecimal C++ functions",
                                        "SequentialData", "HashEncoder", "HMACEncoder", "SHAKE output", "HashEncoder SHAKE output", "HOTP object", "hash of a string", "Blowfish C functions"};
    c.note("%s, %zu bytes, %s", names[what], n, hashes[a].name);
    c.label("long: %s", names[what]);
    Bytes m(n);
    Src s;
    s.seed(n);
    for (auto &x : m) x = (uint8_t)(1 + s.draw(255));
    std::string str(m.begin(), m.end());
    c.op();
    switch (what) {
    case 0: {
        uint8_t o[64];
        hashes[a].encode(m.data(), n, o, 0);
        c.same("digest", o, ref::digest_size(a), [&] { return ref::hash(a, m); });
        break;
    }
    case 1: {
        uint8_t o[64];
        hmacs[a].oneshot(m.data(), n, m.data(), n / 2, o);
        c.same("MAC", o, ref::digest_size(a), [&] { return ref::hmac(a, m, Bytes(m.begin(), m.begin() + (ptrdiff_t)(n / 2))); });
        break;
    }
    case 2: {
        uint32_t v = pgfe_hotp(m.data(), n, 77, 6);
        c.same("code", v, [&] { return (uint64_t)ref::hotp(ref::A_SHA1, m, 77, 6); });
        break;
    }
    case 3: {
        std::vector<char> t(2 * n + 20);
        size_t k = bases[b].enc(m.data(), n, t.data());
        Bytes back(n + 20);
        size_t r = bases[b].dec(t.data(), back.data());
        c.require("round trip", r == n && k < t.size() && !memcmp(back.data(), m.data(), n));
        break;
    }
    case 4: {
        std::unique_ptr<AbstractBaseEncoding> o;
        if (b == ref::B16) o.reset(new Base16);
        else if (b < ref::B64) o.reset(new Base32(b == ref::B32HEX));
        else o.reset(new Base64(b == ref::B64URL));
        std::string t = c.pick(2) ? o->encode(str) : o->encode(SequentialData(m.data(), n));
        SequentialData d = o->decode(t);
        c.require("round trip", bytes_of(d) == m);
        break;
    }
    case 5: {
        Blowfish o(m.data(), 16);
        SequentialData e = c.pick(2) ? o.encrypt(str) : o.encrypt(m.data(), n);
        SequentialData d = o.decrypt(e);
        Bytes r = bytes_of(d);
        c.require("round trip", r.size() >= n && !memcmp(r.data(), m.data(), n));
        break;
    }
    case 6: {
        std::vector<char> t(2 * n + 2), u(2 * n + 2);
        pgfe_hash_to_hex_string(m.data(), n, t.data());
        c.require("hexadecimal text", std::string(t.data()) == ref::hex(m));
        pgfe_hash_string_clean(t.data(), u.data());
        pgfe_hash_string_clean_(t.data());
        c.require("cleaned text", !strcmp(t.data(), u.data()) && std::string(t.data()) == ref::hex(m));
        Bytes back(n + 1);
        pgfe_hex_string_to_hash(t.data(), back.data());
        back.resize(n);
        c.require("round trip", back == m);
        c.require("hash length", pgfe_hash_length(t.data()) == n);
        break;
    }
    case 7: {
        SequentialData d(m.data(), n);
        std::string t = d.hex_str();
        c.require("hexadecimal text", t == ref::hex(m));
        std::unique_ptr<SequentialData> back(utils::sequential_data::from_hex_string(t));
        c.require("round trip", bytes_of(*back) == m);
        break;
    }
    case 8: {
        Bytes z = m;
        for (size_t i = 0; i < n / 4; i++) z[i] = z[n - 1 - i] = 0;
        SequentialData d(z.data(), n);
        std::string t = d.to_str(false);
        c.require("string", t.size() == n && !memcmp(t.data(), z.data(), n));
        SequentialData q = d.trim();
        c.require("trimmed", bytes_of(q) == Bytes(z.begin() + (ptrdiff_t)(n / 4), z.end() - (ptrdiff_t)(n / 4)));
        break;
    }
    case 9: {
        HashEncoder o(hashes[a].choice);
        o.update(str);
        SequentialData d(m.data(), n);
        o.update(d);
        c.require("digest", bytes_of(*o.get_digest()).size() == ref::digest_size(a));
        break;
    }
    case 10: {
        HMACEncoder o(hashes[a].choice, str);
        o.update(str);
        Bytes r = bytes_of(*o.get_digest());
        c.same("MAC", r.data(), r.size(), [&] { return ref::hmac(a, m, m); });
        break;
    }
    case 11: {
        int x = xof_alg(c);
        Bytes o(n);
        hashes[x].encode(m.data(), 100, o.data(), 8 * n);
        c.same("output", o.data(), n, [&] { return ref::hash(x, m.data(), 100, 8 * n); });
        break;
    }
    case 12: {
        int x = xof_alg(c);
        HashEncoder e(hashes[x].choice);
        e.update(m.data(), 100);
        Bytes r = bytes_of(*e.get_digest(8 * n));
        c.same("output", r.data(), r.size(), [&] { return ref::hash(x, m.data(), 100, 8 * n); });
        break;
    }
    case 13: {
        HOTP o(hashes[a == ref::A_MD5 ? ref::A_SHA1 : a].choice);
        int al = a == ref::A_MD5 ? (int)ref::A_SHA1 : a;
        if (c.pick(2)) o.set_secret(str);
        else o.set_secret_from_base32(ref::encode(ref::B32, m));
        c.same("code", o.generate(8), [&] { return (uint64_t)ref::hotp(al, m, 0, 8); });
        break;
    }
    case 14: {
        uint8_t o[64];
        hashes[a].encode_default((const uint8_t *)str.c_str(), o, 0);
        c.same("digest", o, ref::digest_size(a), [&] { return ref::hash(a, m); });
        break;
    }
    default: {
        pgfe_blowfish_ctx x;
        pgfe_blowfish_init(&x, m.data(), 16);
        Bytes o(n + 8), p(n + 16);
        size_t k = pgfe_blowfish_encrypt(&x, m.data(), n, o.data());
        pgfe_blowfish_decrypt(&x, o.data(), k, p.data());
        c.require("round trip", k == (n + 7) / 8 * 8 && !memcmp(p.data(), m.data(), n));
    }
    }
}
void *big_thread(void *v) {
    BigJob *j = (BigJob *)v;
    try {
        big_work(*j->c);
    }
    catch (...) {
        j->e = std::current_exception();
    }
    return nullptr;
}
} // namespace
PROP_CPU(X01big, 120, "every case: an input or output of 1 to 12 MiB with a stack of 512 KiB") {
    BigJob j{&c, nullptr};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 512 << 10);
    pthread_t t;
    if (pthread_create(&t, &at, big_thread, &j)) throw std::bad_alloc();
    pthread_join(t, nullptr);
    pthread_attr_destroy(&at);
    if (j.e) {
        try {
            std::rethrow_exception(j.e);
        }
        catch (Fail &f) { // the contents are the business of other properties, unless the stack is to blame
            c.note("%s", f.msg.c_str());
        }
    }
    c.nontrivial();
}

// The known defect: the truncation of an HMAC-MD5 may read behind the MAC. To be run under AddressSanitizer.
PROP(X01md5, "every case: an HOTP code with MD5 whose truncation offset is 13, 14 or 15") {
    Bytes k(20, (uint8_t)'k');
    uint64_t ctr = 0;
    for (bool ok = true; ok; ctr++) {
        ref::hotp(ref::A_MD5, k, ctr, 6, &ok);
        if (!ok) break;
    }
    c.note("HOTP with MD5, secret of 20 letters k, counter %llu", (unsigned long long)ctr);
    c.op();
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
        if (freopen("/dev/null", "w", stderr)) {}
        volatile uint32_t v = pgfe_hotp_generic(MD5, k.data(), k.size(), ctr, 6);
        (void)v;
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (st) c.finding("hotp-md5-truncation");
    c.nontrivial();
}

// ---------------------------------------------------------------- X03
PROP(X03, "a call is made and something is compared") {
    const Body &b = choose_body(c, false);
    int f1, f2;
    switch (c.weighted({4, 3, 3})) {
    case 0: f1 = 0, f2 = 0xff; break;
    case 1: f1 = 0, f2 = (int)c.range(1, 255); break;
    default: f1 = (int)c.pick(256), f2 = (f1 + 1 + (int)c.pick(255)) & 255;
    }
    std::vector<uint64_t> rec;
    std::vector<Bytes> t1, t2;
    c.note("[%s, memory filled with %02x and with %02x]", b.name, f1, f2);
    c.label("operations of %s", b.name);
    auto run = [&](Src *s, int fill, std::vector<Bytes> &t, bool first) {
        Case k(s);
        k.up = &c;
        k.want_desc = first && c.want_desc;
        k.in_shared = false;
        k.oracle = false;
        k.fill = fill;
        k.mm = MM_CANARY;
        k.transcript = &t;
        g_new_fill = (uint8_t)fill;
        g_new_fill_on = true;
        mallopt(M_PERTURB, (fill ^ 0xff) ? (fill ^ 0xff) : 0x100); // malloc fills with the complement of the low byte
        try {
            run_body(b, k);
        }
        catch (...) {
            g_new_fill_on = false;
            mallopt(M_PERTURB, 0);
            throw;
        }
        g_new_fill_on = false;
        mallopt(M_PERTURB, 0);
        return k.nops;
    };
    Src s1, s2;
    s1.parent = c.src;
    s1.rec = &rec;
    uint64_t ops = run(&s1, f1, t1, true);
    s2.mode = Src::LIST;
    s2.list = rec;
    run(&s2, f2, t2, false);
    size_t n = t1.size() < t2.size() ? t1.size() : t2.size();
    for (size_t i = 0; i < n; i++)
        if (t1[i] != t2[i])
            c.fail("observation %zu of %zu depends on the prior contents of memory: %s with memory full of %02x, %s with %02x", i + 1, t1.size(), show(t1[i]).c_str(), f1,
                   show(t2[i]).c_str(), f2);
    if (t1.size() != t2.size()) c.fail("%zu observations with memory full of %02x, %zu with %02x", t1.size(), f1, t2.size(), f2);
    if (ops && n) c.nontrivial();
}

// ---------------------------------------------------------------- X02
namespace {
struct Task
{
    const Body *body;
    std::vector<uint64_t> rec;
    std::vector<Bytes> solo, together;
    std::exception_ptr e;
};
void compare(Case &c, std::vector<Task> &ts) {
    for (size_t i = 0; i < ts.size(); i++) {
        Task &t = ts[i];
        size_t n = t.solo.size() < t.together.size() ? t.solo.size() : t.together.size();
        for (size_t k = 0; k < n; k++)
            if (t.solo[k] != t.together[k])
                c.fail("computation %zu (%s): observation %zu is %s alone, %s beside the others", i, t.body->name, k + 1, show(t.solo[k]).c_str(), show(t.together[k]).c_str());
        if (t.solo.size() != t.together.size()) c.fail("computation %zu (%s): %zu observations alone, %zu beside the others", i, t.body->name, t.solo.size(), t.together.size());
    }
}
// Coroutines in one thread
const size_t COSTACK = 1 << 20;
struct Coro
{
    ucontext_t ctx;
    uint8_t *stack = nullptr;
    bool done = false;
    int64_t clock = -1;
    std::function<void()> fn;
};
struct CoSched : Sched
{
    std::vector<std::unique_ptr<Coro>> co;
    ucontext_t main;
    uint64_t switches = 0;
    int cur = -1;
    static CoSched *self;
    static void entry() {
        CoSched *s = self;
        Coro &k = *s->co[(size_t)s->cur];
        k.fn();
        k.done = true;
        swapcontext(&k.ctx, &s->main);
    }
    ~CoSched() override {
        for (auto &k : co) give(k->stack);
    }
    static std::vector<uint8_t *> &pool() {
        static std::vector<uint8_t *> p;
        return p;
    }
    static uint8_t *take() {
        if (!pool().empty()) {
            uint8_t *p = pool().back();
            pool().pop_back();
            return p;
        }
        uint8_t *p = (uint8_t *)mmap(nullptr, COSTACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) throw std::bad_alloc();
        mprotect(p, 4096, PROT_NONE);
        return p;
    }
    static void give(uint8_t *p) { pool().push_back(p); }
    void add(std::function<void()> f) {
        co.emplace_back(new Coro);
        Coro &k = *co.back();
        k.fn = std::move(f);
        k.stack = take();
        getcontext(&k.ctx);
        k.ctx.uc_stack.ss_sp = k.stack + 4096;
        k.ctx.uc_stack.ss_size = COSTACK;
        k.ctx.uc_link = &main;
        makecontext(&k.ctx, (void (*)())entry, 0);
    }
    void resume(int i) {
        self = this;
        cur = i;
        switches++;
        Coro &k = *co[(size_t)i];
        int64_t saved = fake_now;
        fake_now = k.clock;
        swapcontext(&main, &k.ctx);
        k.clock = fake_now;
        fake_now = saved;
    }
    void yield(int id) override { swapcontext(&co[(size_t)id]->ctx, &main); }
};
CoSched *CoSched::self;

struct ThreadArg
{
    Task *t;
    pthread_barrier_t *bar;
};
void *thread_main(void *v) {
    ThreadArg *a = (ThreadArg *)v;
    Src s;
    s.mode = Src::LIST;
    s.list = a->t->rec;
    Case k(&s);
    k.in_shared = false;
    k.oracle = false;
    k.mm = MM_CANARY;
    k.transcript = &a->t->together;
    pthread_barrier_wait(a->bar);
    try {
        run_body(*a->t->body, k);
    }
    catch (...) {
        a->t->e = std::current_exception();
    }
    return nullptr;
}

// C contexts that are copied at any point
void copies(Case &c) {
    struct Live
    {
        std::unique_ptr<Ctx> x;
        Bytes msg;
    };
    int a = any_alg(c);
    bool mac = !ref::is_xof(a) && c.chance(1, 2);
    size_t size = mac ? hmacs[a].ctx_size : hashes[a].ctx_size, block = ref::block_size(a);
    Bytes key = mac ? hmac_key(c, block) : Bytes();
    c.note("%s%s contexts, key %s", mac ? "HMAC " : "", hashes[a].name, show(key).c_str());
    c.label("copies of %s contexts", mac ? "HMAC" : ref::is_xof(a) ? "SHAKE" : "hash");
    std::vector<Live> v(1);
    v[0].x.reset(new Ctx(c, size));
    c.op();
    if (mac) {
        hmacs[a].init(v[0].x->p());
        hmacs[a].set_key(v[0].x->p(), key.data(), key.size());
    }
    else hashes[a].init(v[0].x->p());
    size_t most = c.chance(1, 20) ? 40 : 5;
    int steps = 3 + (int)c.pick(most == 40 ? 160 : 16), ncopies = 0;
    for (int i = 0; i < steps; i++) {
        size_t k = c.pick(v.size());
        if (v.size() < most && c.chance(1, 4)) {
            Live l;
            l.x.reset(new Ctx(c, size));
            l.x->copy_from(*v[k].x);
            l.msg = v[k].msg;
            v.push_back(std::move(l));
            c.note("%zu copied to %zu", k, v.size() - 1);
            ncopies++;
            continue;
        }
        Bytes d = c.data(block, 500);
        c.note("%zu updated with %s", k, show(d).c_str());
        c.op();
        if (mac) hmacs[a].update(v[k].x->p(), d.data(), d.size());
        else hashes[a].update(v[k].x->p(), d.data(), d.size());
        v[k].msg.insert(v[k].msg.end(), d.begin(), d.end());
    }
    uint64_t bits = ref::is_xof(a) ? xof_bits(c, block, true) : 0;
    size_t outn = ref::is_xof(a) ? bits_to_bytes(bits) : ref::digest_size(a);
    if (c.chance(1, 2)) std::reverse(v.begin(), v.end());
    for (size_t k = 0; k < v.size(); k++) {
        Live &l = v[k];
        Bytes o(outn);
        if (ref::is_xof(a) && c.chance(1, 2) && outn) { // a copy in the middle of the output
            size_t first = c.pick(outn + 1);
            Ctx y(c, size);
            c.op();
            hashes[a].digest(l.x->p(), o.data(), first * 8);
            y.copy_from(*l.x);
            Bytes p(o.begin(), o.begin() + (ptrdiff_t)first), q(outn - first);
            hashes[a].digest(l.x->p(), o.data() + first, (outn - first) * 8);
            hashes[a].digest(y.p(), q.data(), (outn - first) * 8);
            p.insert(p.end(), q.begin(), q.end());
            if (p != o) c.fail("a copy made after %zu bytes of output goes on differently", first);
            ncopies++;
        }
        else {
            c.op();
            if (mac) hmacs[a].digest(l.x->p(), o.data());
            else hashes[a].digest(l.x->p(), o.data(), bits);
        }
        c.same("digest of a copied context", o.data(), outn, [&] { return mac ? ref::hmac(a, key, l.msg) : ref::hash(a, l.msg, bits); });
    }
    if (ncopies) c.nontrivial();
}
} // namespace

PROP(X02, "two or more computations take turns or run at the same time, or a context is copied") {
    int how = g_variant == V_TSAN ? 2 : c.weighted({5, 2, 1});
    if (how == 1) return copies(c);
    size_t n = how == 0 && c.chance(1, 30) ? 5 + c.pick(36) : 2 + c.pick(3);
    if (how == 2 && c.chance(1, 12)) n = 5 + c.pick(4);
    std::vector<Task> ts(n);
    bool alike = c.chance(1, 3); // all of the same kind
    for (size_t i = 0; i < n; i++) {
        Task &t = ts[i];
        t.body = alike && i ? ts[0].body : &choose_body(c, false);
        Src s;
        s.parent = c.src;
        s.rec = &t.rec;
        Case k(&s);
        k.up = &c;
        k.want_desc = c.want_desc;
        k.in_shared = false;
        k.oracle = false;
        k.mm = MM_CANARY;
        k.transcript = &t.solo;
        c.note("[computation %zu: %s]", i, t.body->name);
        c.label("computations of %s", t.body->name);
        run_body(*t.body, k);
    }
    if (how == 0) {
        CoSched sc;
        for (size_t i = 0; i < n; i++)
            sc.add([&sc, &ts, i] {
                Task &t = ts[i];
                Src s;
                s.mode = Src::LIST;
                s.list = t.rec;
                Case k(&s);
                k.in_shared = false;
                k.oracle = false;
                k.mm = MM_CANARY;
                k.transcript = &t.together;
                k.sched = &sc;
                k.sched_id = (int)i;
                try {
                    run_body(*t.body, k);
                }
                catch (...) {
                    t.e = std::current_exception();
                }
            });
        // turns: random, with a bias towards staying or changing
        unsigned stay = (unsigned)c.pick(4);
        Src s;
        s.seed(c.pick(1ULL << 32));
        int cur = 0;
        for (;;) {
            std::vector<int> live;
            for (size_t i = 0; i < n; i++) if (!sc.co[i]->done) live.push_back((int)i);
            if (live.empty()) break;
            if (sc.co[(size_t)cur]->done || s.draw(4) >= stay) cur = live[s.draw(live.size())];
            sc.resume(cur);
        }
        c.note("[%llu turns in one thread]", (unsigned long long)sc.switches);
        c.label("taking turns in one thread");
    }
    else {
        pthread_barrier_t bar;
        pthread_barrier_init(&bar, nullptr, (unsigned)n);
        std::vector<ThreadArg> args(n);
        std::vector<pthread_t> th(n);
        for (size_t i = 0; i < n; i++) {
            args[i] = {&ts[i], &bar};
            if (pthread_create(&th[i], nullptr, thread_main, &args[i])) _exit(3);
        }
        for (auto &t : th) pthread_join(t, nullptr);
        pthread_barrier_destroy(&bar);
        c.note("[at the same time, in threads]");
        c.label("at the same time in threads");
    }
    for (auto &t : ts)
        if (t.e) std::rethrow_exception(t.e);
    compare(c, ts);
    c.nontrivial();
}

// The first things a process does with the library, in one or more threads; compared with the references
static void first_use(Case &c) {
    size_t n = c.chance(1, 4) ? 1 : c.chance(1, 10) ? 5 + c.pick(4) : 2 + c.pick(3), each = 1 + c.pick(3);
    bool alike = c.chance(1, 2);
    struct Thread
    {
        std::vector<const Body *> bodies;
        Src src;
        std::string fail;
    };
    std::vector<Thread> ts(n);
    for (size_t i = 0; i < n; i++) {
        for (size_t k = 0; k < each; k++) ts[i].bodies.push_back(alike && i ? ts[0].bodies[k] : &choose_body(c, false));
        ts[i].src.seed(c.pick(1ULL << 32));
        std::string d;
        for (auto *b : ts[i].bodies) d += std::string(" ") + b->name;
        c.note("thread %zu:%s", i, d.c_str());
    }
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, nullptr, (unsigned)n);
    auto work = [&](Thread &t) {
        if (n > 1) pthread_barrier_wait(&bar);
        for (auto *b : t.bodies) {
            Case k(&t.src);
            k.in_shared = false;
            k.mm = MM_CANARY;
            try {
                b->fn(k);
            }
            catch (Fail &f) {
                if (t.fail.empty()) t.fail = std::string(b->name) + ": " + f.msg;
            }
            catch (Discard &) {
            }
            catch (std::bad_alloc &) {
            }
            catch (std::exception &e) {
                if (t.fail.empty()) t.fail = std::string(b->name) + ": unexpected exception " + e.what();
            }
        }
    };
    if (n == 1) work(ts[0]);
    else {
        std::vector<std::thread> th;
        for (auto &t : ts) th.emplace_back([&] { work(t); });
        for (auto &t : th) t.join();
    }
    for (size_t i = 0; i < n; i++)
        if (!ts[i].fail.empty()) c.fail("thread %zu of %zu: %s", i, n, ts[i].fail.c_str());
}
PROP(X02first, "every case: a process begins to use the library, in one or more threads") {
    in_fresh_process(c, first_use);
    c.nontrivial();
}
