// X02, inside calls: a computation is interrupted at any of its instructions by others, as by a signal handler
#include "common.hpp"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/fishes/blowfish.h"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/generic.hpp"
#include "libpgfe/otp/hotp.h"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.h"
#include "libpgfe/utils.h"
#include "libpgfe/utils.hpp"
#include "otp_gen.hpp"
#include <cctype>
#include <csignal>
#include <link.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ucontext.h>
using namespace api;
using namespace gen;

namespace {
// A computation with all that it needs, so that running it does nothing else
struct Job
{
    std::string name;
    std::function<void()> call; // set up beforehand: it neither allocates nor draws
    std::function<Bytes()> want;
    Bytes out;
    size_t got = 0; // returned length, where there is one
    bool counts = false;
    std::vector<std::shared_ptr<void>> keep;
    template <class T> T *own(T *p) {
        keep.push_back(std::shared_ptr<void>((void *)p, [](void *q) { delete (T *)q; }));
        return p;
    }
    uint8_t *mem(size_t n) { return own(new Bytes(n + 16, 0xA5))->data(); }
    const uint8_t *in(const Bytes &b) {
        Bytes *p = own(new Bytes(b));
        p->push_back(0);
        return p->data();
    }
    void finish(Case &c, const char *what) {
        if (counts && got <= out.size()) out.resize(got);
        else if (counts) c.fail("%s (%s): returned length %zu", what, name.c_str(), got);
        c.same((std::string(what) + " (" + name + ")").c_str(), out.data(), out.size(), want);
    }
};
enum Kind { ONE_SHOT, CONTEXT, PARTS, HMAC, HMAC_CONTEXT, HMAC_BY_ALG, ENCODE, DECODE, TO_HEX, FROM_HEX, CLEAN, HEX_LENGTH, FISH, FISH_KEY, HOTP, TOTP, C_KINDS,
            HASH_OBJECT = C_KINDS, HMAC_OBJECT, CODEC, FISH_OBJECT, OTP_OBJECT, SEQUENCE, NAME, KINDS };

void make(Case &c, Job &j, int kind, int a, int64_t now) {
    int f = a % ref::A_FIXED;
    size_t block = ref::block_size(kind == HMAC || kind == HMAC_CONTEXT || kind == HMAC_BY_ALG || kind == HMAC_OBJECT ? f : a);
    uint64_t bits = ref::is_xof(a) ? 8 * (1 + c.pick(300)) : 0;
    size_t n = ref::is_xof(a) ? bits / 8 : ref::digest_size(a);
    Job *J = &j;
    switch (kind) {
    case ONE_SHOT: case CONTEXT: case PARTS: case HASH_OBJECT: {
        const HashApi *h = &hashes[a];
        Bytes m = c.bytes(c.pick(3 * block));
        size_t cut = c.pick(m.size() + 1), z = m.size();
        const uint8_t *p = j.in(m);
        j.out.resize(n);
        j.want = [=] { return ref::hash(a, m, bits); };
        if (kind == ONE_SHOT) {
            j.name = std::string(h->name) + " in one call";
            j.call = [=] { h->encode(p, z, J->out.data(), bits); };
        }
        else if (kind == CONTEXT) {
            j.name = std::string(h->name) + " context";
            uint8_t *x = j.mem(h->ctx_size);
            j.call = [=] { h->init(x), h->update(x, p, cut), h->update(x, p + cut, z - cut), h->digest(x, J->out.data(), bits); };
        }
        else if (kind == PARTS) {
            j.name = std::string(h->name) + " of two parts";
            j.call = [=] {
                Part v[2] = {{p, cut}, {p + cut, z - cut}};
                h->encode_multi(J->out.data(), bits, v, 2);
            };
        }
        else {
            j.name = std::string(h->name) + " object";
            auto *e = j.own(new libpgfe::HashEncoder(h->choice));
            j.call = [=] {
                e->update(p, cut);
                e->update(p + cut, z - cut);
                const libpgfe::SequentialData *d = e->get_digest(bits);
                memcpy(J->out.data(), d->data(), d->size() < n ? d->size() : n);
            };
        }
        break;
    }
    case HMAC: case HMAC_CONTEXT: case HMAC_BY_ALG: case HMAC_OBJECT: {
        const HmacApi *h = &hmacs[f];
        Bytes k = hmac_key(c, block), m = c.bytes(c.pick(2 * block));
        if (k.size() > 3 * block) k.resize(3 * block);
        const uint8_t *pk = j.in(k), *p = j.in(m);
        size_t kn = k.size(), z = m.size(), o = ref::digest_size(f);
        j.name = std::string("HMAC ") + h->name;
        j.out.resize(o);
        j.want = [=] { return ref::hmac(f, k, m); };
        if (kind == HMAC) j.call = [=] { h->oneshot(pk, kn, p, z, J->out.data()); };
        else if (kind == HMAC_BY_ALG) j.call = [=] { pgfe_hmac(h->choice, pk, kn, p, z, J->out.data()); };
        else if (kind == HMAC_CONTEXT) {
            j.name += " context";
            uint8_t *x = j.mem(h->ctx_size);
            j.call = [=] { h->init(x), h->set_key(x, pk, kn), h->update(x, p, z), h->digest(x, J->out.data()); };
        }
        else {
            j.name += " object";
            auto *e = j.own(new libpgfe::HMACEncoder(h->choice, pk, kn));
            j.call = [=] {
                e->update(p, z);
                const libpgfe::SequentialData *d = e->get_digest();
                memcpy(J->out.data(), d->data(), d->size() < o ? d->size() : o);
            };
        }
        break;
    }
    case ENCODE: case DECODE: case CODEC: {
        int b = (int)c.pick(ref::B_COUNT);
        bool enc = kind == ENCODE || (kind == CODEC && c.pick(2));
        Bytes x = c.bytes(c.pick(120));
        std::string t = ref::encode(b, x);
        j.name = std::string(bases[b].name) + (enc ? " encoding" : " decoding") + (kind == CODEC ? " by an object" : "");
        j.counts = true;
        j.out.assign(t.size() + 260, 0xA5);
        const uint8_t *p = j.in(enc ? x : bytes_of(t));
        size_t z = x.size();
        auto *s = j.own(new std::string(t));
        if (enc) j.want = [=] { return bytes_of(t); };
        else j.want = [=] { return x; };
        if (kind == ENCODE) j.call = [=] { J->got = bases[b].enc(p, z, (char *)J->out.data()); };
        else if (kind == DECODE) j.call = [=] { J->got = bases[b].dec((const char *)p, J->out.data()); };
        else {
            libpgfe::AbstractBaseEncoding *o = nullptr;
            if (b == ref::B16) o = j.own(new libpgfe::Base16);
            if (b == ref::B32 || b == ref::B32HEX) o = j.own(new libpgfe::Base32(b == ref::B32HEX));
            if (b == ref::B64 || b == ref::B64URL) o = j.own(new libpgfe::Base64(b == ref::B64URL));
            if (enc) j.call = [=] {
                std::string r = o->encode(p, z);
                memcpy(J->out.data(), r.data(), J->got = r.size() < J->out.size() ? r.size() : J->out.size());
            };
            else j.call = [=] {
                libpgfe::SequentialData r = o->decode(*s);
                memcpy(J->out.data(), r.data(), J->got = r.size() < J->out.size() ? r.size() : J->out.size());
            };
        }
        break;
    }
    case TO_HEX: {
        Bytes x = c.bytes(c.pick(60));
        const uint8_t *p = j.in(x);
        size_t z = x.size();
        j.name = "hexadecimal text";
        j.counts = true;
        j.out.assign(2 * z + 1, 0xA5);
        j.call = [=] { J->got = pgfe_hash_to_hex_string(p, z, (char *)J->out.data()); };
        j.want = [=] { return bytes_of(ref::hex(x)); };
        break;
    }
    case FROM_HEX: case CLEAN: case HEX_LENGTH: {
        std::string t;
        for (size_t i = c.pick(90); i--;) t += "0123456789abcdefABCDEF -:.gz"[c.pick(28)];
        const char *p = (const char *)j.in(bytes_of(t));
        j.counts = true;
        j.out.assign(t.size() + 1, 0xA5);
        if (kind == FROM_HEX) {
            j.name = "reading hexadecimal text";
            j.call = [=] { J->got = pgfe_hex_string_to_hash(p, J->out.data()); };
            j.want = [=] { return ref::hex_parse(t); };
        }
        else if (kind == CLEAN) {
            j.name = "cleaning hexadecimal text";
            j.call = [=] { J->got = pgfe_hash_string_clean(p, (char *)J->out.data()); };
            j.want = [=] { return bytes_of(ref::hex_clean(t)); };
        }
        else {
            j.name = "length of hexadecimal text";
            j.counts = false;
            j.out.assign(8, 0);
            j.call = [=] {
                size_t r = pgfe_hash_length(p);
                memcpy(J->out.data(), &r, sizeof r);
            };
            j.want = [=] {
                size_t r = (ref::hex_clean(t).size() + 1) / 2;
                Bytes o(8);
                memcpy(o.data(), &r, sizeof r);
                return o;
            };
        }
        break;
    }
    case FISH: case FISH_KEY: case FISH_OBJECT: {
        Bytes k = c.bytes(1 + c.pick(56)), x = c.bytes(c.pick(50));
        bool enc = c.pick(2);
        const uint8_t *pk = j.in(k), *p = j.in(x);
        size_t kn = k.size(), z = x.size();
        auto *ctx = j.own(new pgfe_blowfish_ctx);
        j.name = kind == FISH_KEY ? "Blowfish with its key" : kind == FISH ? "Blowfish" : "Blowfish object";
        j.counts = true;
        j.out.assign((z + 7) / 8 * 8, 0xA5);
        if (kind == FISH) pgfe_blowfish_init(ctx, pk, kn);
        if (kind != FISH_OBJECT) j.call = [=] {
            if (kind == FISH_KEY) pgfe_blowfish_init(ctx, pk, kn);
            J->got = (enc ? pgfe_blowfish_encrypt : pgfe_blowfish_decrypt)(ctx, p, z, J->out.data());
        };
        else {
            auto *o = j.own(new libpgfe::Blowfish(pk, kn));
            j.call = [=] {
                libpgfe::SequentialData r = enc ? o->encrypt(p, z) : o->decrypt(p, z);
                memcpy(J->out.data(), r.data(), J->got = r.size() < J->out.size() ? r.size() : J->out.size());
            };
        }
        j.want = [=] { return ref::Blowfish(k).buffer(x, enc); };
        break;
    }
    case OTP_OBJECT: {
        int al = f == ref::A_MD5 ? ref::A_SHA1 : f;
        Bytes k = c.bytes(c.pick(70));
        uint64_t counter = c.weird64();
        uint8_t digits = (uint8_t)(1 + c.pick(9));
        const uint8_t *p = j.in(k);
        size_t kn = k.size();
        j.name = std::string("HOTP object ") + hashes[al].name;
        j.out.assign(digits, 0xA5);
        auto *o = j.own(new libpgfe::HOTP(p, kn, hashes[al].choice));
        j.call = [=] {
            o->set_counter(counter);
            std::string t = o->generate_str(digits);
            memcpy(J->out.data(), t.data(), t.size() < digits ? t.size() : digits);
        };
        j.want = [=] {
            std::string t = std::to_string(ref::hotp(al, k, counter, digits));
            return bytes_of(std::string(t.size() < digits ? digits - t.size() : 0, '0') + t);
        };
        break;
    }
    case SEQUENCE: {
        Bytes x = c.bytes(c.pick(40));
        for (uint8_t &b : x) b |= 0x80; // nothing to trim inside
        auto *t = j.own(new std::string("00" + ref::hex(x) + "00"));
        j.name = "byte sequence";
        j.out.assign(2 * x.size(), 0xA5);
        j.counts = true;
        j.call = [=] {
            libpgfe::SequentialData *d = libpgfe::utils::sequential_data::from_hex_string(*t);
            std::string r = d->trim().hex_str();
            delete d;
            memcpy(J->out.data(), r.data(), J->got = r.size() < J->out.size() ? r.size() : J->out.size());
        };
        j.want = [=] { return bytes_of(ref::hex(x)); };
        break;
    }
    case NAME: {
        auto *t = j.own(new std::string(hashes[a].name));
        int choice = hashes[a].choice;
        j.name = "algorithm name";
        j.out.assign(1, 0xff);
        j.call = [=] { J->out[0] = (uint8_t)libpgfe::_algstr(*t); };
        j.want = [=] { return Bytes(1, (uint8_t)choice); };
        break;
    }
    default: { // HOTP TOTP
        int al = f == ref::A_MD5 ? ref::A_SHA1 : f;
        Bytes k = c.bytes(c.pick(70));
        uint64_t counter = kind == HOTP ? c.weird64() : (uint64_t)now / 30;
        uint8_t digits = (uint8_t)(1 + c.pick(10));
        const uint8_t *p = j.in(k);
        size_t kn = k.size();
        j.name = std::string(kind == HOTP ? "HOTP " : "TOTP ") + hashes[al].name;
        j.out.assign(4, 0);
        j.call = [=] {
            uint32_t r = kind == HOTP ? pgfe_hotp_generic(hashes[al].choice, p, kn, counter, digits) : pgfe_totp_generic(hashes[al].choice, p, kn, digits, 30, 0, nullptr);
            memcpy(J->out.data(), &r, 4);
        };
        j.want = [=] {
            uint32_t r = ref::hotp(al, k, counter, digits);
            Bytes o(4);
            memcpy(o.data(), &r, 4);
            return o;
        };
    }
    }
}

// Interruptions: after so many instructions, at the next one that is the library's
struct Plan
{
    size_t n = 0, done = 0;
    uint64_t at[3], steps = 0;
    Job *job[3];
};
volatile Plan *plan;
uintptr_t text_lo, text_hi;
int find_text(dl_phdr_info *i, size_t, void *) {
    if (!strstr(i->dlpi_name, "libpgfe")) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
            text_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            text_hi = text_lo + i->dlpi_phdr[k].p_memsz;
        }
    return 0;
}
#ifdef __x86_64__
const uint64_t TF = 0x100;
void on_step(int, siginfo_t *, void *v) {
    ucontext_t *u = (ucontext_t *)v;
    Plan *p = (Plan *)plan;
    uintptr_t pc = (uintptr_t)u->uc_mcontext.gregs[REG_RIP];
    if (!p || p->done == p->n) {
        u->uc_mcontext.gregs[REG_EFL] &= ~(greg_t)TF;
        return;
    }
    if (++p->steps < p->at[p->done] || pc < text_lo || pc >= text_hi) return;
    int e = errno;
    p->job[p->done++]->call();
    errno = e;
}
__attribute__((noinline)) void run_stepping(Job &j) {
    __builtin_ia32_writeeflags_u64(__builtin_ia32_readeflags_u64() | TF);
    j.call();
    __builtin_ia32_writeeflags_u64(__builtin_ia32_readeflags_u64() & ~TF);
}
#else
void on_step(int, siginfo_t *, void *) {}
void run_stepping(Job &j) { j.call(); }
#endif
// Whatever the library may prepare at its first use is not what is interrupted here
void warm_up() {
    static bool done;
    if (done) return;
    done = true;
    static uint8_t k[64], o[512];
    static char t[512];
    for (const HashApi &h : hashes) {
        h.encode(k, 64, o, 128);
        libpgfe::HashEncoder(h.choice).get_digest(128);
    }
    for (const HmacApi &h : hmacs) {
        h.oneshot(k, 64, k, 64, o);
        pgfe_hmac(h.choice, k, 64, k, 64, o);
    }
    for (const BaseApi &b : bases) {
        b.enc(k, 64, t);
        b.dec(t, o);
    }
    pgfe_blowfish_ctx x;
    pgfe_blowfish_init(&x, k, 8);
    pgfe_blowfish_encrypt(&x, k, 8, o);
    pgfe_blowfish_decrypt(&x, k, 8, o);
    pgfe_hash_to_hex_string(k, 64, t);
    pgfe_hex_string_to_hash(t, o);
    pgfe_totp_generic(hashes[ref::A_SHA1].choice, k, 20, 6, 30, 0, nullptr);
}
} // namespace

PROP(X02int, "a computation was interrupted by another between two of its instructions") {
    FakeClock clock;
    fake_now = 1000000000 + (int64_t)c.pick(1000000000);
    int kind = (int)c.pick(KINDS), a = any_alg(c);
    warm_up();
    Job outer, inner[3];
    Plan p;
    make(c, outer, kind, a, fake_now);
    c.note("%s", outer.name.c_str());
    p.n = 1 + (size_t)c.weighted({4, 1, 1});
    static const int plain[] = {ONE_SHOT, HMAC, DECODE, FISH, HOTP, TO_HEX, HEX_LENGTH};
    for (size_t i = 0; i < p.n; i++) {
        int k = c.pick(3) ? kind < C_KINDS ? kind : plain[kind - C_KINDS] : (int)c.pick(C_KINDS);
        make(c, inner[i], k, c.pick(3) ? a : any_alg(c), fake_now);
        p.job[i] = &inner[i];
        uint64_t d = c.pick(c.weighted({3, 5, 1}) == 0 ? 200 : c.pick(8) ? 3000 : 20000);
        p.at[i] = (i ? p.at[i - 1] : 0) + d;
        c.note("interrupted after %llu instructions by %s", (unsigned long long)p.at[i], inner[i].name.c_str());
    }
    if (!text_lo) dl_iterate_phdr(find_text, nullptr);
    struct sigaction s, old;
    memset(&s, 0, sizeof s);
    s.sa_sigaction = on_step;
    s.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &s, &old);
    plan = &p;
    c.op();
    run_stepping(outer);
    plan = nullptr;
    sigaction(SIGTRAP, &old, nullptr);
    c.label("%s", outer.name.c_str());
    c.label("%zu interruptions", p.done);
    if (p.done) c.nontrivial();
    for (size_t i = 0; i < p.done; i++) inner[i].finish(c, "what interrupted");
    outer.finish(c, "what was interrupted");
}

namespace {
// What a process computes while it ends, or a thread of it while it ends
struct Late
{
    size_t n = 0;
    int64_t now;
    Job *job[4];
    struct Result
    {
        bool ran;
        size_t got, size;
        uint8_t out[4000];
    } *r;
};
Late *late;
void run_late(void *) {
    fake_now = late->now; // it is one for each thread
    for (size_t i = 0; i < late->n; i++) {
        Job &j = *late->job[i];
        Late::Result &r = late->r[i];
        j.call();
        r.got = j.got;
        r.size = j.out.size();
        memcpy(r.out, j.out.data(), r.size < sizeof r.out ? r.size : sizeof r.out);
        r.ran = true;
    }
}
void run_last() { run_late(nullptr); }
void *in_thread(void *v) {
    auto *early = (std::vector<Job *> *)v;
    pthread_key_t k;
    pthread_key_create(&k, run_late);
    pthread_setspecific(k, late);
    fake_now = late->now;
    for (Job *j : *early) j->call();
    return nullptr;
}
void ending(Case &c) {
    FakeClock clock;
    fake_now = 1000000000 + (int64_t)c.pick(1000000000);
    bool thread = c.pick(3) == 0, one_kind = c.pick(3) == 0;
    int kind = (int)c.pick(KINDS), a = any_alg(c);
    // never freed: no destructor of ours is to run in between
    late = new Late;
    auto *early = new std::vector<Job *>;
    late->n = 1 + c.pick(4);
    late->now = fake_now;
    late->r = (Late::Result *)mmap(nullptr, 4 * sizeof(Late::Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (late->r == MAP_FAILED) throw std::bad_alloc();
    auto job = [&](int k) {
        Job *j = new Job;
        make(c, *j, k, c.pick(2) ? a : any_alg(c), fake_now);
        return j;
    };
    c.note("while %s ends:", thread ? "a thread" : "the process");
    for (size_t i = 0; i < late->n; i++) {
        late->job[i] = job(one_kind ? kind : (int)c.pick(KINDS));
        c.note("%s;", late->job[i]->name.c_str());
    }
    c.note("before:");
    for (size_t i = c.pick(4); i--;) {
        early->push_back(job(one_kind ? kind : (int)c.pick(KINDS)));
        c.note("%s;", early->back()->name.c_str());
    }
    c.op();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) throw std::bad_alloc();
    if (!pid) {
        alarm(60);
        if (thread) {
            pthread_t t;
            if (pthread_create(&t, nullptr, in_thread, early)) _exit(9);
            pthread_join(t, nullptr);
            _exit(0);
        }
        atexit(run_last);
        for (Job *j : *early) j->call();
        exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 9) throw std::bad_alloc();
    for (size_t i = 0; i < late->n; i++) {
        Late::Result &r = late->r[i];
        Job &j = *late->job[i];
        if (!r.ran) c.fail("%s, as %s ended, did not return (status %#x)", j.name.c_str(), thread ? "a thread" : "the process", (unsigned)st);
        j.got = r.got;
        j.out.assign(r.out, r.out + (r.size < sizeof r.out ? r.size : sizeof r.out));
        j.finish(c, thread ? "result as a thread ended" : "result as the process ended");
    }
    if (st) c.fail("%s ended with status %#x", thread ? "a thread" : "the process", (unsigned)st);
}
} // namespace

PROP(X09late, "every case: something is computed while a process or a thread ends") {
    in_fresh_process(c, ending);
    c.nontrivial();
}
