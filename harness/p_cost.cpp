// X06: the work grows in proportion to the data. It is counted, not timed: basic blocks of the library (the variant `cost`
// is instrumented), bytes touched by the memory functions (costmem.cpp) and bytes allocated.
#include "common.hpp"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/generic.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/otp/hotp.h"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.h"
#include "libpgfe/otp/totp.hpp"
#include "libpgfe/utils.h"
#include "libpgfe/utils.hpp"
#include <csetjmp>
using namespace api;
using namespace gen;
using libpgfe::SequentialData;

static uint64_t work_limit = 0;
static jmp_buf too_much;
extern "C" {
uint64_t pbt_work = 0;
bool pbt_counting = false;
__attribute__((weak)) void __sanitizer_cov_trace_pc_guard(uint32_t *) {
    if (++pbt_work > work_limit && pbt_counting) { // its objects are lost
        pbt_counting = false;
        longjmp(too_much, 1);
    }
}
__attribute__((weak)) void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
}

namespace {
struct Counting
{
    Counting() { pbt_work = 0, pbt_counting = true; }
    ~Counting() { pbt_counting = false; }
};
// One measured job. n: size of the data, k: number of calls, v: a value (counter, time), before: size of data the object dealt with before
struct Dim
{
    size_t n, k;
    uint64_t v;
    size_t before;
};
struct Job
{
    uint64_t seed;
    int a, b, form;
    bool used = false; // the dimensions it has
    bool has_n = false, has_k = false, has_v = false, has_before = false;
    const char *name = "";
    char what[160];

    Src s;
    size_t rnd(size_t n) { return (size_t)s.draw(n); }
    Bytes bytes(size_t n) {
        Bytes r(n);
        for (auto &x : r) x = (uint8_t)s.draw(256);
        return r;
    }
    std::string text(size_t n, const char *of) {
        std::string r(n, 0);
        size_t m = strlen(of);
        for (auto &x : r) x = of[s.draw(m)];
        return r;
    }
};
template <class F> uint64_t count(F f) {
    Counting k;
    f();
    return pbt_work;
}
const char NOISE[] = " \n\r\t:;!";

typedef uint64_t (*JobFn)(Job &, const Dim &);

uint64_t job_hash(Job &j, const Dim &d) { // one call
    const HashApi &h = hashes[j.a];
    size_t bits = 200;
    Bytes m = j.bytes(d.n), o(64);
    for (auto &x : m) x = j.form == 1 && !x ? 1 : x;
    m.push_back(0);
    if (j.form == 0) return count([&] { h.encode(m.data(), d.n, o.data(), bits); });
    if (j.form == 1) return count([&] { h.encode_default(m.data(), o.data(), bits); });
    if (j.form == 2) {
        FILE *f = fmemopen(m.data(), d.n, "r");
        uint64_t w = count([&] { h.encode_f(f, o.data(), bits); });
        fclose(f);
        return w;
    }
    std::vector<Part> v(8);
    for (size_t i = 0; i < 8; i++) v[i] = {m.data() + i * (d.n / 8), d.n / 8};
    return count([&] { h.encode_multi(o.data(), bits, v.data(), 8); });
}
uint64_t job_hash_calls(Job &j, const Dim &d) { // updates
    const HashApi &h = hashes[j.a];
    Bytes m = j.bytes(d.n), o(64), x(h.ctx_size + 64);
    void *p = (void *)(((uintptr_t)x.data() + 63) & ~(uintptr_t)63);
    return count([&] {
        h.init(p);
        for (size_t i = 0; i < d.k; i++) h.update(p, m.data(), m.size());
        h.digest(p, o.data(), 200);
    });
}
uint64_t job_xof_out(Job &j, const Dim &d) {
    const HashApi &h = hashes[ref::A_FIXED + j.a % 4];
    Bytes m = j.bytes(50), o(d.n + 8), x(h.ctx_size + 64);
    void *p = (void *)(((uintptr_t)x.data() + 63) & ~(uintptr_t)63);
    if (j.form == 0) return count([&] { h.encode(m.data(), m.size(), o.data(), 8 * d.n); });
    return count([&] {
        h.init(p);
        h.update(p, m.data(), m.size());
        for (size_t i = 0; i < d.k; i++) h.digest(p, o.data(), 8 * d.n);
    });
}
uint64_t job_hmac(Job &j, const Dim &d) {
    const HmacApi &h = hmacs[j.a % ref::A_FIXED];
    Bytes m = j.bytes(d.n), t = j.bytes(40), o(64), x(h.ctx_size + 64);
    void *p = (void *)(((uintptr_t)x.data() + 63) & ~(uintptr_t)63);
    if (j.form == 0) return count([&] { h.oneshot(t.data(), t.size(), m.data(), m.size(), o.data()); });
    if (j.form == 1) return count([&] { h.oneshot(m.data(), m.size(), t.data(), t.size(), o.data()); });
    if (j.form == 2) return count([&] { pgfe_hmac(h.choice, t.data(), t.size(), m.data(), m.size(), o.data()); });
    return count([&] {
        h.init(p);
        h.set_key(p, t.data(), t.size());
        for (size_t i = 0; i < d.k; i++) h.update(p, m.data(), m.size());
        h.digest(p, o.data());
    });
}
std::string base_text(Job &j, size_t n, int kind) { // about n characters
    static const char *const ab[] = {"0123456789ABCDEF", "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", "0123456789ABCDEFGHIJKLMNOPQRSTUV",
                                     "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"};
    std::string u = ab[j.b];
    switch (kind) {
    case 0: return j.text(n, u.c_str());
    case 1: return j.text(n, NOISE);
    case 2: return j.text(n, (u + NOISE + NOISE + NOISE).c_str());
    case 3: return j.text(n / 2, u.c_str()) + j.text(n / 2, NOISE);
    default: return j.text(n / 2, NOISE) + j.text(n / 2, u.c_str());
    }
}
uint64_t job_base(Job &j, const Dim &d) {
    const BaseApi &h = bases[j.b];
    if (j.form == 0) {
        Bytes m = j.bytes(d.n);
        std::vector<char> o(2 * d.n + 64);
        return count([&] { h.enc(m.data(), d.n, o.data()); });
    }
    std::string t = base_text(j, d.n, j.form - 1);
    Bytes o(d.n + 64);
    return count([&] { h.dec(t.c_str(), o.data()); });
}
uint64_t job_codec(Job &j, const Dim &d) {
    std::unique_ptr<libpgfe::AbstractBaseEncoding> p;
    libpgfe::Base16 b16;
    libpgfe::Base32 b32(j.b == ref::B32HEX);
    libpgfe::Base64 b64(j.b == ref::B64URL);
    libpgfe::AbstractBaseEncoding &e = j.b == ref::B16 ? (libpgfe::AbstractBaseEncoding &)b16 : j.b == ref::B32 || j.b == ref::B32HEX ? (libpgfe::AbstractBaseEncoding &)b32 : b64;
    if (d.before) {
        Bytes m = j.bytes(d.before);
        std::string t = e.encode(m.data(), m.size());
        e.decode(t);
    }
    Bytes m = j.bytes(d.n);
    std::string t = base_text(j, d.n, j.form >= 4 ? j.form - 4 : 0), u = str(m);
    SequentialData q = seq(m);
    return count([&] {
        for (size_t i = 0; i < d.k; i++) switch (j.form) {
            case 0: e.encode(m.data(), m.size()); break;
            case 1: e.encode(u); break;
            case 2: e.encode(q); break;
            case 3: e.decode(t.c_str()); break;
            default: e.decode(t);
            }
    });
}
uint64_t job_hex(Job &j, const Dim &d) {
    static const char D[] = "0123456789abcdefABCDEF", DN[] = "0123456789abcdef    \n\n::xg";
    Bytes m = j.bytes(d.n), o(d.n + 64);
    std::vector<char> s(2 * d.n + 64);
    int kind = j.form / 8;
    std::string t = j.text(d.n, kind == 0 ? D : kind == 1 ? DN : NOISE);
    switch (j.form % 8) {
    case 0: return count([&] { pgfe_hash_to_hex_string(m.data(), m.size(), s.data()); });
    case 1: return count([&] { pgfe_hex_string_to_hash(t.c_str(), o.data()); });
    case 2: return count([&] { pgfe_hash_string_clean(t.c_str(), s.data()); });
    case 3: return count([&] { pgfe_hash_string_clean_(&t[0]); });
    case 4: return count([&] { pgfe_hash_length(t.c_str()); });
    case 5: return count([&] { delete libpgfe::utils::sequential_data::from_hex_string(t.c_str()); });
    case 6: return count([&] { delete libpgfe::utils::sequential_data::from_hex_string(t); });
    default: {
        SequentialData q = seq(m);
        return count([&] { q.hex_str(); });
    }
    }
}
uint64_t job_seq(Job &j, const Dim &d) {
    Bytes m = j.bytes(d.n);
    int kind = j.form / 16;
    if (kind)
        for (size_t i = 0; i < d.n; i++)
            if (kind == 3 || (kind == 1 && i < d.n / 2) || (kind == 2 && i > d.n / 2)) m[i] = 0; // which trimming removes
    std::string t = str(m);
    for (auto &x : t) x = x ? x : 1;
    SequentialData q = seq(m);
    auto each = [&](auto f) { return count([&] { for (size_t i = 0; i < d.k; i++) f(); }); };
    switch (j.form % 16) {
    case 0: return each([&] { SequentialData x(m.data(), m.size()); });
    case 1: return each([&] { SequentialData x(t.c_str()); });
    case 2: return each([&] { SequentialData x(t); });
    case 3: return each([&] { SequentialData x(q); });
    case 4: return each([&] { SequentialData x(&q); });
    case 5: return each([&] { q.to_str(false); });
    case 6: return each([&] { q.to_str(); });
    case 7: return each([&] { q.trim(); });
    case 8: return each([&] { q.trim_left(); });
    case 9: return each([&] { q.trim_right(); });
    case 10: return each([&] { q.trim_(); });
    case 11: return each([&] { q.trim_left_(); });
    case 12: return each([&] { q.trim_right_(); });
    case 13: return each([&] { size_t n; q.to_pgfe_seq(n); });
    case 14: return each([&] { delete libpgfe::utils::to_sequential_data(t); });
    default: return each([&] { delete libpgfe::utils::to_sequential_data(m.data(), m.size()); });
    }
}
uint64_t job_fish(Job &j, const Dim &d) {
    Bytes m = j.bytes(d.n), k = j.bytes(16), o(d.n + 64);
    pgfe_blowfish_ctx x;
    if (j.form == 0) return count([&] { pgfe_blowfish_init(&x, m.data(), m.size()); });
    pgfe_blowfish_init(&x, k.data(), k.size());
    if (j.form == 1) return count([&] { pgfe_blowfish_encrypt(&x, m.data(), m.size(), o.data()); });
    if (j.form == 2) return count([&] { pgfe_blowfish_decrypt(&x, m.data(), m.size(), o.data()); });
    libpgfe::Blowfish e(k.data(), k.size());
    SequentialData q = seq(m);
    std::string t = str(m);
    if (d.before) {
        Bytes b = j.bytes(d.before);
        e.decrypt(e.encrypt(b.data(), b.size()));
    }
    return count([&] {
        for (size_t i = 0; i < d.k; i++) switch (j.form) {
            case 3: e.encrypt(m.data(), m.size()); break;
            case 4: e.decrypt(q); break;
            case 5: e.encrypt(t); break;
            default: e.decrypt(m.data(), m.size());
            }
    });
}
uint64_t job_hash_encoder(Job &j, const Dim &d) {
    libpgfe::HashEncoder e(hashes[j.a].choice);
    if (d.before) {
        Bytes b = j.bytes(d.before);
        e.update(b.data(), b.size());
        if (j.form & 1) e.get_digest();
        e.reset();
    }
    Bytes m = j.bytes(d.n);
    std::string t = str(m);
    SequentialData q = seq(m);
    if (j.form < 4)
        return count([&] {
            for (size_t i = 0; i < d.k; i++) switch (j.form) {
                case 0: e.update(m.data(), m.size()); break;
                case 1: e.update(t); break;
                case 2: e.update(q); break;
                default: e.update(t.c_str());
                }
            e.get_digest();
        });
    return count([&] {
        for (size_t i = 0; i < d.k; i++) {
            e.update(m.data(), m.size());
            if (j.form != 5) e.get_digest();
            e.reset();
        }
    });
}
uint64_t job_hmac_encoder(Job &j, const Dim &d) {
    Bytes key = j.bytes(j.form == 6 ? d.n : 40);
    libpgfe::HMACEncoder e(hashes[j.a % ref::A_FIXED].choice, key.data(), key.size());
    if (d.before) {
        Bytes b = j.bytes(d.before);
        e.update(b.data(), b.size());
        if (j.form & 1) e.get_digest();
        e.reset();
    }
    Bytes m = j.bytes(d.n);
    std::string t = str(m);
    SequentialData q = seq(m);
    if (j.form < 4)
        return count([&] {
            for (size_t i = 0; i < d.k; i++) switch (j.form) {
                case 0: e.update(m.data(), m.size()); break;
                case 1: e.update(t); break;
                case 2: e.update(q); break;
                default: e.update(t.c_str());
                }
            e.get_digest();
        });
    if (j.form == 6) return count([&] { libpgfe::HMACEncoder f(hashes[j.a % ref::A_FIXED].choice, key.data(), key.size()); });
    return count([&] {
        for (size_t i = 0; i < d.k; i++) {
            e.update(m.data(), m.size());
            if (j.form != 5) e.get_digest();
            e.reset();
        }
    });
}
uint64_t job_shake_encoder(Job &j, const Dim &d) { // output of a HashEncoder
    libpgfe::HashEncoder e(hashes[ref::A_FIXED + j.a % 4].choice);
    if (d.before) {
        e.get_digest(8 * (uint64_t)d.before);
        e.reset();
    }
    return count([&] {
        for (size_t i = 0; i < d.k; i++) {
            e.get_digest(8 * (uint64_t)d.n);
            e.reset();
        }
    });
}
int otp_a(Job &j) { return 1 + j.a % (ref::A_FIXED - 1); }
uint64_t job_hotp(Job &j, const Dim &d) {
    Bytes m = j.bytes(d.n);
    pgfe_algorithm_choice a = hashes[otp_a(j)].choice;
    unsigned digits = 1 + (unsigned)j.rnd(12);
    if (j.form == 0)
        return count([&] { for (size_t i = 0; i < d.k; i++) pgfe_hotp_generic(a, m.data(), m.size(), d.v + i, (uint8_t)digits); });
    if (j.form == 5) { // the secret is set
        libpgfe::HOTP q(a);
        std::string t = base_text(j, d.n, 0);
        return count([&] { for (size_t i = 0; i < d.k; i++) q.set_secret_from_base32(t); });
    }
    libpgfe::HOTP o(m.data(), m.size(), a);
    if (d.before) {
        Bytes b = j.bytes(d.before);
        o.set_secret(b.data(), b.size());
        o.generate();
        o.set_secret(m.data(), m.size());
    }
    return count([&] {
        for (size_t i = 0; i < d.k; i++) switch (j.form) {
            case 1: o.set_counter(d.v + i), o.generate((uint8_t)digits); break;
            case 2: o.set_counter(d.v + i), o.generate_str((uint8_t)digits); break;
            case 3: o.set_counter(d.v), o.generate(6); break;
            default: o.set_secret(m.data(), m.size()), o.set_counter(d.v), o.generate();
            }
    });
}
uint64_t job_totp(Job &j, const Dim &d) { // v: 0, or the time, start and interval by turns
    FakeClock fc;
    Bytes m = j.bytes(d.n);
    pgfe_algorithm_choice a = hashes[otp_a(j)].choice;
    int64_t now = 1000000000, start = 0;
    uint32_t interval = 30;
    int which = (int)j.rnd(4);
    uint64_t v = d.v & 0xffffffffffULL;
    if (d.v) {
        if (which & 1) now = (int64_t)v;
        if (which == 2) interval = (uint32_t)(1 + v % 0x7ffffffe);
        if (which == 3) interval = 1;
        if (which == 0) start = -(int64_t)v;
    }
    fake_now = now;
    unsigned digits = 1 + (unsigned)j.rnd(12);
    if (j.form == 0) {
        pgfe_totp_delta_t dl;
        return count([&] { for (size_t i = 0; i < d.k; i++) pgfe_totp_generic(a, m.data(), m.size(), (uint8_t)digits, interval, (time_t)start, &dl); });
    }
    libpgfe::TOTP o(m.data(), m.size(), 30, a);
    if (j.form == 1) o.generate(); // long before
    o.set_interval(interval);
    o.set_initial_time((time_t)start);
    return count([&] {
        for (size_t i = 0; i < d.k; i++) {
            fake_now = now + (int64_t)i;
            if (j.form == 3) o.generate_str((uint8_t)digits);
            else o.generate((uint8_t)digits);
            o.remaining_time();
        }
    });
}
uint64_t job_names(Job &j, const Dim &d) {
    std::string t = j.text(d.n, "abcdefSHAKE0123456789_"), u = hashes[j.a].name;
    auto look = [](const std::string &n) {
        try {
            libpgfe::_algstr(n);
        }
        catch (std::exception &) {
        }
    };
    libpgfe::_algstr(u); // the table is built
    return count([&] {
        for (size_t i = 0; i < d.k; i++) {
            look(u);
            if (j.form & 1) look(t);
        }
    });
}
struct Kind
{
    const char *name;
    JobFn fn;
    int forms;
    const char *dims; // n, k, v, b
    int weight;
};
const Kind kinds[] = {
    {"hash, one call", job_hash, 4, "n", 4},
    {"hash, updates", job_hash_calls, 1, "nk", 3},
    {"SHAKE output", job_xof_out, 2, "nk", 2},
    {"HMAC", job_hmac, 4, "nk", 3},
    {"base C functions", job_base, 6, "n", 5},
    {"codec objects", job_codec, 9, "nkb", 5},
    {"hexadecimal", job_hex, 24, "n", 4},
    {"SequentialData", job_seq, 64, "nk", 5},
    {"Blowfish", job_fish, 7, "nkb", 3},
    {"HashEncoder", job_hash_encoder, 6, "nkb", 4},
    {"HMACEncoder", job_hmac_encoder, 7, "nkb", 4},
    {"SHAKE HashEncoder", job_shake_encoder, 1, "nkb", 2},
    {"HOTP", job_hotp, 6, "nkvb", 4},
    {"TOTP", job_totp, 4, "nkv", 4},
    {"algorithm names", job_names, 2, "nk", 1},
};
} // namespace

PROP_CPU(X06, 120, "every case: the work of two jobs that differ in one dimension is counted") {
    if (g_variant != V_COST) throw Discard();
    static int sum = 0;
    if (!sum) for (auto &k : kinds) sum += k.weight;
    int w = (int)c.pick((uint64_t)sum), q = 0;
    while (w >= kinds[q].weight) w -= kinds[q++].weight;
    const Kind &K = kinds[q];
    Job j;
    j.a = (int)c.pick(ref::A_COUNT);
    j.b = (int)c.pick(ref::B_COUNT);
    j.form = (int)c.pick((uint64_t)K.forms);
    j.seed = c.pick(1 << 16);
    char dim = K.dims[c.pick(strlen(K.dims))];
    size_t f = (size_t)8 << c.pick(2);
    Dim x{0, 1, 0, 0}, y;
    uint64_t factor = 1;
    switch (dim) {
    case 'n':
        x.n = 1024 + c.pick(c.chance(1, 6) ? 16384 : 3000);
        if (strchr(K.dims, 'k')) x.k = 1 + c.pick(3);
        if (strchr(K.dims, 'v')) x.v = c.pick(3) ? 0 : c.weird64();
        y = x;
        y.n *= f;
        factor = f;
        break;
    case 'k':
        x.n = 1 + (c.pick(4) ? c.pick(40) : c.pick(300));
        x.k = 32 + c.pick(200);
        if (strchr(K.dims, 'v')) x.v = c.pick(3) ? 0 : c.weird64();
        y = x;
        y.k *= f;
        factor = f;
        break;
    case 'v':
        x.n = 1 + c.pick(100);
        y = x;
        y.v = c.weird64();
        break;
    default:
        x.n = 1 + c.pick(60);
        x.k = 1 + c.pick(8);
        y = x;
        y.before = (size_t)100000 << c.pick(4);
    }
    static const char *const dn[] = {"size", "number of calls", "value", "what it did before"};
    const char *D = dn[dim == 'n' ? 0 : dim == 'k' ? 1 : dim == 'v' ? 2 : 3];
    c.label("%s: %s", K.name, D);
    c.note("%s, form %d, %s, %s: %s from (%zu bytes, %zu calls, value %llu) to (%zu bytes, %zu calls, value %llu, %zu bytes before)", K.name, j.form, hashes[j.a].name, bases[j.b].name, D,
           x.n, x.k, (unsigned long long)x.v, y.n, y.k, (unsigned long long)y.v, y.before);
    static uint64_t got[2];
    static bool over;
    const Dim *ds[2] = {&x, &y};
    got[0] = got[1] = 0;
    over = false;
    work_limit = 1000000000;
    for (int i = 0; i < 2 && !over; i++) {
        c.op();
        j.s.seed(j.seed);
        if (i) work_limit = 3 * factor * got[0] + 4000;
        if (setjmp(too_much)) {
            over = true;
            fake_now = -1;
        }
        else {
            uint64_t w = K.fn(j, *ds[i]);
            got[i] = w;
            over = w > work_limit;
        }
    }
    c.nontrivial();
    if (over && !got[1] && work_limit == 1000000000) c.fail("%s, form %d: the work is more than %llu", K.name, j.form, (unsigned long long)work_limit);
    c.note("work %llu and %llu", (unsigned long long)got[0], (unsigned long long)got[1]);
    if (over)
        c.fail("%s, form %d: the work grows from %llu to more than %llu, when the %s grows %zu times", K.name, j.form, (unsigned long long)got[0], (unsigned long long)work_limit, D,
               dim == 'n' || dim == 'k' ? f : (size_t)1);
}
