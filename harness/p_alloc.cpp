// A01: allocation failures in histories of operations on the C++ objects
#include "common.hpp"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.hpp"
#include "libpgfe/utils.h"
#include "libpgfe/utils.hpp"
#include "otp_gen.hpp"
#include "libpgfe/otp/hotp.h"
#include <algorithm>
#include <functional>
#include <malloc.h>
#include <sys/resource.h>
#include <memory>
#include <new>
using namespace api;
using namespace gen;
using namespace libpgfe;

namespace {
struct Run
{
    Case &c;
    int failures = 0; // operations that ended with bad_alloc
    int after = 0;    // results checked after a failure
    // Makes a call, during which an allocation may be made to fail; false: it ended with bad_alloc
    template <class F> bool call(const char *what, F f) {
        int64_t at = 0, times = 1;
        if (c.chance(1, 2)) {
            at = 1 + (int64_t)c.pick(4);
            if (c.chance(1, 4)) times = 1000000;
        }
        c.op();
        bool bad = false, other = false;
        std::string msg;
        AllocGate::on(at, times);
        try {
            f();
        }
        catch (std::bad_alloc &) {
            bad = true;
        }
        catch (std::exception &e) {
            AllocGate::off();
            other = true;
            msg = e.what();
        }
        catch (...) {
            AllocGate::off();
            other = true;
            msg = "an object that is no std::exception";
        }
        bool fired = AllocGate::fired();
        AllocGate::off();
        if (fired) c.note("%s%s with allocation %lld%s failing", bad ? "bad_alloc from " : "", what, (long long)at, times > 1 ? " and all later ones" : "");
        else c.note("%s", what);
        if (other) c.fail("%s threw something else than std::bad_alloc: %s", what, msg.c_str());
        if (bad && !fired) c.fail("%s threw std::bad_alloc though no allocation failed", what);
        if (bad) {
            failures++;
            c.label("bad_alloc from %s", what);
        }
        return !bad;
    }
};
// A buffer that dies with the gate closed
Bytes small(Case &c, size_t block) { return c.data(block, c.chance(1, 12) ? 3000 : 300); }

template <class E> void feed(Case &c, E &o, const Bytes &d, int f, const std::function<bool(const char *, std::function<void()>)> &call, bool &ok) {
    std::string s = gen::str(d);
    SequentialData sd = seq(d);
    ok = call("update", [&] {
        if (f == 0) o.update(d.data(), d.size());
        else if (f == 1) o.update(s.c_str());
        else if (f == 2) o.update(s);
        else o.update(sd);
    });
}

void hash_history(Run &r) {
    Case &c = r.c;
    int a = any_alg(c);
    size_t block = ref::block_size(a), dsz = ref::digest_size(a);
    c.note("HashEncoder %s", hashes[a].name);
    std::unique_ptr<HashEncoder> o;
    bool ready = false;
    Bytes msg;
    size_t steps = c.steps(2, 14);
    auto call = [&](const char *w, std::function<void()> f) { return r.call(w, f); };
    for (size_t i = 0; i < steps; i++) {
        if (!o) {
            HashEncoder *p = nullptr;
            ready = r.call("HashEncoder()", [&] { p = new HashEncoder(hashes[a].choice); });
            if (!ready) continue;
            o.reset(p);
            msg.clear();
            continue;
        }
        int what = ready ? c.weighted({6, 4, 3, 1}) : 2;
        if (what == 0) {
            Bytes d = small(c, block);
            int f = (int)c.pick(4);
            if (f == 1) d = cut_at_nul(d);
            feed(c, *o, d, f, call, ready);
            msg.insert(msg.end(), d.begin(), d.end());
        }
        else if (what == 1) {
            uint64_t bits = ref::is_xof(a) && c.chance(1, 2) ? 8 + xof_bits(c, block, true) : 0;
            const SequentialData *d = nullptr;
            bool ok = r.call("get_digest", [&] { d = bits ? o->get_digest(bits) : o->get_digest(); });
            if (ok) {
                Bytes g = bytes_of(*d), e = ref::hash(a, msg, ref::is_xof(a) ? bits ? bits : dsz * 8 : 0);
                if (g != e) c.fail("digest is %s, expected %s", show(g).c_str(), show(e).c_str());
                if (r.failures) r.after++;
            }
            ready = false;
        }
        else if (what == 2) {
            ready = r.call("reset", [&] { o->reset(); });
            msg.clear();
        }
        else o.reset();
    }
}
void hmac_history(Run &r) {
    Case &c = r.c;
    int a = fixed_alg(c);
    size_t block = ref::block_size(a);
    Bytes k = hmac_key(c, block), msg;
    c.note("HMACEncoder %s, key %s", hashes[a].name, show(k).c_str());
    std::unique_ptr<HMACEncoder> o;
    bool ready = false;
    auto call = [&](const char *w, std::function<void()> f) { return r.call(w, f); };
    size_t steps = c.steps(2, 14);
    for (size_t i = 0; i < steps; i++) {
        if (!o) {
            HMACEncoder *p = nullptr;
            SequentialData sd = seq(k);
            std::string s = gen::str(k);
            int f = (int)c.pick(std::find(k.begin(), k.end(), 0) == k.end() ? 4 : 3);
            ready = r.call("HMACEncoder()", [&] {
                p = f == 3 ? new HMACEncoder(hashes[a].choice, s.c_str()) : f == 0 ? new HMACEncoder(hashes[a].choice, k.data(), k.size()) : f == 1 ? new HMACEncoder(hashes[a].choice, s) : new HMACEncoder(hashes[a].choice, sd);
            });
            if (!ready) continue;
            o.reset(p);
            msg.clear();
            continue;
        }
        int what = ready ? c.weighted({6, 4, 3, 1}) : 2;
        if (what == 0) {
            Bytes d = small(c, block);
            int f = (int)c.pick(4);
            if (f == 1) d = cut_at_nul(d);
            feed(c, *o, d, f, call, ready);
            msg.insert(msg.end(), d.begin(), d.end());
        }
        else if (what == 1) {
            const SequentialData *d = nullptr;
            if (r.call("get_digest", [&] { d = o->get_digest(); })) {
                Bytes g = bytes_of(*d), e = ref::hmac(a, k, msg);
                if (g != e) c.fail("MAC is %s, expected %s", show(g).c_str(), show(e).c_str());
                if (r.failures) r.after++;
            }
            ready = false;
        }
        else if (what == 2) {
            ready = r.call("reset", [&] { o->reset(); });
            msg.clear();
        }
        else o.reset();
    }
}
void base_history(Run &r) {
    Case &c = r.c;
    int b = (int)c.pick(ref::B_COUNT);
    c.note("%s", bases[b].name);
    std::unique_ptr<AbstractBaseEncoding> o;
    auto destroy = [&] {
        AbstractBaseEncoding *p = o.release();
        if (!p) return;
        if (b == ref::B16) delete static_cast<Base16 *>(p);
        else if (b < ref::B64) delete static_cast<Base32 *>(p);
        else delete static_cast<Base64 *>(p);
    };
    struct AtExit
    {
        std::function<void()> f;
        ~AtExit() { f(); }
    } at_exit{destroy};
    size_t steps = c.steps(2, 14);
    for (size_t i = 0; i < steps; i++) {
        if (!o) {
            AbstractBaseEncoding *p = nullptr;
            if (r.call("base object()", [&] {
                    if (b == ref::B16) p = new Base16;
                    else if (b < ref::B64) p = new Base32(b == ref::B32HEX);
                    else p = new Base64(b == ref::B64URL);
                }))
                o.reset(p);
            continue;
        }
        Bytes d = small(c, 60);
        std::string t = ref::encode(b, d), s = gen::str(d);
        SequentialData sd = seq(d);
        switch (c.weighted({4, 4, 1})) {
        case 0: {
            std::unique_ptr<std::string> g;
            int f = (int)c.pick(std::find(d.begin(), d.end(), 0) == d.end() ? 4 : 3);
            if (r.call("encode", [&] { g.reset(new std::string(f == 3 ? o->encode(s.c_str()) : f == 0 ? o->encode(d.data(), d.size()) : f == 1 ? o->encode(s) : o->encode(sd))); })) {
                if (*g != t) c.fail("encoding of %s is %s", show(d).c_str(), show_text(*g).c_str());
                if (r.failures) r.after++;
            }
            break;
        }
        case 1: {
            std::unique_ptr<SequentialData> g;
            bool cs = c.chance(1, 2);
            if (r.call("decode", [&] { g.reset(new SequentialData(cs ? o->decode(t.c_str()) : o->decode(t))); })) {
                if (bytes_of(*g) != d) c.fail("decoding of %s is %s", show_text(t).c_str(), show(bytes_of(*g)).c_str());
                if (r.failures) r.after++;
            }
            break;
        }
        default: destroy();
        }
    }
}
void blowfish_history(Run &r) {
    Case &c = r.c;
    Bytes k = c.bytes(1 + c.pick(56));
    ref::Blowfish m(k);
    c.note("Blowfish, key %s", show(k).c_str());
    std::unique_ptr<Blowfish> o;
    size_t steps = c.steps(2, 8);
    auto whole = [&](Bytes d, bool enc) {
        d.resize((d.size() + 7) / 8 * 8);
        for (size_t i = 0; i < d.size(); i += 8) {
            uint32_t l = 0, h = 0;
            for (int j = 0; j < 4; j++) l = l << 8 | d[i + (size_t)j], h = h << 8 | d[i + 4 + (size_t)j];
            if (enc) m.enc(l, h);
            else m.dec(l, h);
            for (int j = 3; j >= 0; j--) d[i + (size_t)j] = (uint8_t)l, l >>= 8, d[i + 4 + (size_t)j] = (uint8_t)h, h >>= 8;
        }
        return d;
    };
    for (size_t i = 0; i < steps; i++) {
        if (!o) {
            Blowfish *p = nullptr;
            std::string s = gen::str(k);
            SequentialData sd = seq(k);
            int f = (int)c.pick(std::find(k.begin(), k.end(), 0) == k.end() ? 4 : 3);
            if (r.call("Blowfish()", [&] { p = f == 3 ? new Blowfish(s.c_str()) : f == 0 ? new Blowfish(k.data(), k.size()) : f == 1 ? new Blowfish(s) : new Blowfish(sd); })) o.reset(p);
            continue;
        }
        Bytes d = small(c, 8);
        std::string s = gen::str(d);
        bool enc = c.chance(1, 2);
        if (!enc) d.resize(d.size() / 8 * 8), s = gen::str(d);
        int f = (int)c.pick(std::find(d.begin(), d.end(), 0) == d.end() ? 4 : 3);
        SequentialData sd = seq(d);
        std::unique_ptr<SequentialData> g;
        if (r.call(enc ? "encrypt" : "decrypt", [&] {
                if (enc) g.reset(new SequentialData(f == 3 ? o->encrypt(s.c_str()) : f == 0 ? o->encrypt(d.data(), d.size()) : f == 1 ? o->encrypt(s) : o->encrypt(sd)));
                else g.reset(new SequentialData(f == 3 ? o->decrypt(s.c_str()) : f == 0 ? o->decrypt(d.data(), d.size()) : f == 1 ? o->decrypt(s) : o->decrypt(sd)));
            })) {
            if (bytes_of(*g) != whole(d, enc)) c.fail("%s of %s is %s", enc ? "encryption" : "decryption", show(d).c_str(), show(bytes_of(*g)).c_str());
            if (r.failures) r.after++;
        }
        if (c.chance(1, 6)) o.reset();
    }
}
template <class O> void otp_history(Run &r, bool timed) {
    Case &c = r.c;
    int a = otp_alg(c);
    if (a == ref::A_MD5) a = ref::A_SHA1;
    c.note("%s %s", timed ? "TOTP" : "HOTP", hashes[a].name);
    FakeClock clock;
    uint64_t counter = 0;
    const int64_t step = 30;
    std::unique_ptr<O> o;
    bool have = false; // a secret is set
    Bytes k;
    size_t steps = c.steps(2, 14);
    for (size_t i = 0; i < steps; i++) {
        if (!o) {
            O *p = nullptr;
            int f = (int)c.pick(4);
            Bytes nk = otp_secret(c);
            std::string s = gen::str(nk);
            SequentialData sd = seq(nk);
            pgfe_algorithm_choice ch = hashes[a].choice;
            if (r.call(timed ? "TOTP()" : "HOTP()", [&] {
                    if constexpr (std::is_same<O, TOTP>::value) p = f == 0 ? new O(30, ch) : f == 1 ? new O(nk.data(), nk.size(), 30, ch) : f == 2 ? new O(s, 30, ch) : new O(sd, 30, ch);
                    else p = f == 0 ? new O(ch) : f == 1 ? new O(nk.data(), nk.size(), ch) : f == 2 ? new O(s, ch) : new O(sd, ch);
                })) {
                o.reset(p);
                counter = 0;
                have = f != 0;
                k = nk;
            }
            continue;
        }
        switch (c.weighted({4, 5, 3, 1})) {
        case 0: {
            Bytes nk = otp_secret(c);
            std::string s = gen::str(nk), b32 = ref::encode(ref::B32, nk);
            SequentialData sd = seq(nk);
            int f = (int)c.pick(std::find(nk.begin(), nk.end(), 0) == nk.end() ? 8 : 7);
            bool ok = r.call(f < 3 || f == 7 ? "set_secret" : "set_secret from Base32", [&] {
                HOTP &h = *o;
                if (f == 0) h.set_secret(nk.data(), nk.size());
                else if (f == 1) h.set_secret(s);
                else if (f == 2) h.set_secret(sd);
                else if (f == 7) h.set_secret(s.c_str());
                else if (f == 6) h.set_secret(b32.c_str(), true);
                else if (f == 3) h.set_secret(b32, true);
                else if (f == 4) h.set_secret_from_base32(b32.c_str());
                else h.set_secret_from_base32(b32);
            });
            if (ok) k = nk, have = true; // otherwise the secret before stays in force
            break;
        }
        case 1: {
            if (!have) break;
            unsigned digits = 6 + (unsigned)c.pick(30);
            bool text = c.chance(1, 2);
            std::unique_ptr<std::string> g;
            uint32_t v = 0;
            if (timed) fake_now = (int64_t)counter * step + (int64_t)c.pick(30);
            if (r.call(text ? "generate_str" : "generate", [&] {
                    if (text) g.reset(new std::string(o->generate_str((uint8_t)digits)));
                    else v = o->generate((uint8_t)digits);
                })) {
                uint32_t e = ref::hotp(a, k, counter, digits);
                if (text ? *g != ref::zero_pad(e, digits) : v != e) c.fail("code is %s, expected %u", text ? g->c_str() : std::to_string(v).c_str(), e);
                if (r.failures) r.after++;
            }
            break;
        }
        case 2:
            counter = timed ? c.pick(100000000) : c.weird64();
            if (!timed) r.call("set_counter", [&] { ((HOTP &)*o).set_counter(counter); });
            break;
        default: o.reset(); have = false;
        }
    }
}
void conversion_history(Run &r) {
    Case &c = r.c;
    size_t steps = c.steps(2, 10);
    c.note("conversions");
    for (size_t i = 0; i < steps; i++) {
        Bytes d = small(c, 16);
        if (c.chance(1, 3))
            for (size_t j = 0; j < d.size() / 3; j++) d[j] = d[d.size() - 1 - j] = 0;
        std::string s = gen::str(d), hx = ref::hex(d);
        Bytes z = cut_at_nul(d);
        std::string cs = gen::str(z);
        SequentialData sd = seq(d);
        std::unique_ptr<SequentialData> g;
        std::unique_ptr<std::string> t;
        bool ok = true;
        Bytes e = d;
        std::string et = s;
        size_t b = 0, n = d.size();
        while (b < n && !d[b]) b++;
        while (n > b && !d[n - 1]) n--;
        switch (c.pick(12)) {
        case 0: ok = r.call("SequentialData(bytes)", [&] { g.reset(new SequentialData(d.data(), d.size())); }); break;
        case 1: ok = r.call("SequentialData(std::string)", [&] { g.reset(new SequentialData(s)); }); break;
        case 2: e = z; ok = r.call("SequentialData(C string)", [&] { g.reset(new SequentialData(cs.c_str())); }); break;
        case 3: ok = r.call("SequentialData(copy)", [&] { g.reset(new SequentialData(sd)); }); break;
        case 4: ok = r.call("to_str", [&] { t.reset(new std::string(sd.to_str())); }); break;
        case 5: et = hx; ok = r.call("hex_str", [&] { t.reset(new std::string(sd.hex_str())); }); break;
        case 6:
            e = Bytes(d.begin() + (ptrdiff_t)b, d.begin() + (ptrdiff_t)n);
            ok = r.call("trim", [&] { g.reset(new SequentialData(sd.trim())); });
            break;
        case 7:
            e = Bytes(d.begin() + (ptrdiff_t)b, d.end());
            ok = r.call("trim_left", [&] { g.reset(new SequentialData(sd.trim_left())); });
            break;
        case 8:
            if (b == d.size()) n = 0;
            e = Bytes(d.begin(), d.begin() + (ptrdiff_t)n);
            ok = r.call("trim_right", [&] { g.reset(new SequentialData(sd.trim_right())); });
            break;
        case 9: ok = r.call("to_sequential_data", [&] { g.reset(utils::to_sequential_data(d.data(), d.size())); }); break;
        case 10: ok = r.call("from_hex_string(std::string)", [&] { g.reset(utils::sequential_data::from_hex_string(hx)); }); break;
        default: ok = r.call("from_hex_string(C string)", [&] { g.reset(utils::sequential_data::from_hex_string(hx.c_str())); });
        }
        if (bytes_of(sd) != d || gen::str(d) != s) c.fail("the argument changed");
        if (!ok) continue;
        if (g && bytes_of(*g) != e) c.fail("result is %s, expected %s", show(bytes_of(*g)).c_str(), show(e).c_str());
        if (t && *t != et) c.fail("result is %s", show_text(*t).c_str());
        if (r.failures) r.after++;
    }
}
// C functions take no memory for themselves that they do not give back
void c_leaks(Case &c) {
    Bytes d = c.data(16, 3000);
    std::string hx = ref::hex(d);
    std::vector<char> t(2 * d.size() + 2);
    Bytes o(d.size() + 1);
    int what = c.pick(3) ? (int)c.pick(4) : 4 + (int)c.pick(6);
    int alg = any_alg(c), base = (int)c.pick(ref::B_COUNT), fa = fixed_alg(c);
    static const char *const names[] = {"pgfe_hash_length", "pgfe_hex_string_to_hash", "pgfe_hash_string_clean", "pgfe_hash_to_hex_string", "hashes", "hashes of a stream", "HMAC", "HOTP", "base encodings", "Blowfish"};
    c.note("repeated calls of %s with %zu characters", names[what], hx.size());
    c.label("repeated calls of %s", names[what]);
    std::string enc = ref::encode(base, d);
    std::vector<char> et(enc.size() + 1);
    Bytes big(256 + d.size() + 16);
    Bytes hctx(hashes[alg].ctx_size);
    pgfe_blowfish_ctx fish;
    std::unique_ptr<FILE, int (*)(FILE *)> f(nullptr, fclose);
    if (what == 5 && d.empty()) d.push_back(7);
    if (what == 5) f.reset(fmemopen(d.data(), d.size(), "rb")), setvbuf(f.get(), nullptr, _IONBF, 0);
    auto once = [&] {
        if (what == 0) (void)pgfe_hash_length(hx.c_str());
        else if (what == 1) pgfe_hex_string_to_hash(hx.c_str(), o.data());
        else if (what == 2) pgfe_hash_string_clean(hx.c_str(), t.data());
        else if (what == 3) pgfe_hash_to_hex_string(d.data(), d.size(), t.data());
        else if (what == 4) {
            hashes[alg].encode(d.data(), d.size(), big.data(), 256);
            hashes[alg].encode_default((const uint8_t *)hx.c_str(), big.data(), 256);
            Part p[2] = {{d.data(), d.size()}, {nullptr, 3}};
            hashes[alg].encode_multi(big.data(), 256, p, 2);
            hashes[alg].init(hctx.data());
            hashes[alg].update(hctx.data(), d.data(), d.size());
            hashes[alg].digest(hctx.data(), big.data(), 256);
        }
        else if (what == 5) {
            rewind(f.get());
            hashes[alg].encode_f(f.get(), big.data(), 256);
        }
        else if (what == 6) {
            hmacs[fa].oneshot(d.data(), d.size(), d.data(), d.size(), big.data());
            pgfe_hmac(hmacs[fa].choice, d.data(), d.size(), d.data(), d.size(), big.data());
        }
        else if (what == 7) (void)pgfe_hotp_generic(hashes[fa ? fa : 1].choice, d.data(), d.size(), 3, 6);
        else if (what == 8) {
            bases[base].enc(d.data(), d.size(), et.data());
            bases[base].dec(et.data(), big.data());
        }
        else {
            pgfe_blowfish_init(&fish, (const uint8_t *)"key", 3);
            pgfe_blowfish_encrypt(&fish, d.data(), d.size(), big.data());
            pgfe_blowfish_decrypt(&fish, d.data(), d.size(), big.data());
        }
    };
    c.op();
    for (int i = 0; i < 40; i++) once(); // fills the caches of the allocator
    struct mallinfo2 a = mallinfo2();
    for (int i = 0; i < 40; i++) once();
    struct mallinfo2 b = mallinfo2();
    if (b.uordblks + b.hblkhd >= a.uordblks + a.hblkhd + 40 * 16) c.fail("40 calls leave %zu more bytes allocated", (size_t)(b.uordblks + b.hblkhd - a.uordblks - a.hblkhd));
    c.nontrivial();
}
void history(Case &c, Run &r, int what) {
    static const char *const names[] = {"HashEncoder", "HMACEncoder", "base objects", "Blowfish", "HOTP", "TOTP", "conversions"};
    c.label("histories of %s", names[what]);
    switch (what) {
    case 0: return hash_history(r);
    case 1: return hmac_history(r);
    case 2: return base_history(r);
    case 3: return blowfish_history(r);
    case 4: return otp_history<HOTP>(r, false);
    case 5: return otp_history<TOTP>(r, true);
    default: return conversion_history(r);
    }
}
} // namespace

PROP(A01, "an allocation of the library fails, and a later result is checked; or calls are repeated to find a leak") {
    if (c.deep == Case::SHALLOW && c.chance(1, 40)) return c_leaks(c);
    int what = c.weighted({4, 3, 4, 2, 3, 3, 4});
    std::vector<uint64_t> rec;
    // A static table that is built at its first use is no leak: what counts is a balance that grows again
    int64_t grown = 0;
    for (int round = 0; round < 2; round++) {
        Src s;
        if (round) {
            s.mode = Src::LIST;
            s.list = rec;
        }
        else {
            s.parent = c.src;
            s.rec = &rec;
        }
        Case k(&s);
        k.up = &c;
        k.deep = c.deep;
        k.life = c.life;
        k.want_desc = c.want_desc && !round;
        k.in_shared = !round;
        Run r{k};
        int64_t before = AllocGate::live();
        history(k, r, what);
        grown = AllocGate::live() - before;
        if (!round && r.failures && r.after) c.nontrivial();
        if (grown == 0) break;
    }
    if (grown > 0) c.fail("%lld allocations of the library are not freed although all objects are gone", (long long)grown);
    if (grown < 0) c.fail("%lld allocations too many are freed", (long long)-grown);
}
PROP_LIFE(A01)

// pgfe_hash_length is the one C function that allocates: without memory it returns zero, or can do without
static void length_without_memory(Case &c) {
    std::string t;
    size_t n = (40u << 20) + (size_t)c.pick(1 << 20), digits = 0;
    Src s;
    s.seed(c.pick(1 << 30));
    while (t.size() < 4096) t += "0123456789abcdefABCDEF -:.gz"[s.draw(28)];
    std::string big = "..";
    big.reserve(n + t.size());
    while (big.size() < n) big += t;
    for (char x : big) digits += isxdigit((uint8_t)x) != 0;
    c.note("pgfe_hash_length of a text of %zu characters when no more memory can be had", big.size());
    unsigned long pages = 0;
    FILE *f = fopen("/proc/self/statm", "r");
    if (!f || fscanf(f, "%lu", &pages) != 1) throw Discard();
    fclose(f);
    struct rlimit old, lim;
    getrlimit(RLIMIT_AS, &old);
    lim = old;
    lim.rlim_cur = (rlim_t)pages * 4096 + (1 << 20);
    if (setrlimit(RLIMIT_AS, &lim)) throw Discard();
    size_t got = pgfe_hash_length(big.c_str());
    setrlimit(RLIMIT_AS, &old);
    c.op();
    c.label(got ? "memory was found" : "no memory");
    if (!got) c.nontrivial();
    else c.same("pgfe_hash_length", (uint64_t)got, [&] { return (uint64_t)(digits + 1) / 2; });
    c.same("pgfe_hash_length with memory", (uint64_t)pgfe_hash_length(big.c_str()), [&] { return (uint64_t)(digits + 1) / 2; });
}
static pbt::Reg r_a01len("A01len", "no memory was to be had", length_without_memory, 120);
