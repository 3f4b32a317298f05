// X10: what only reads may be done by several threads at the same time
#include "otp_gen.hpp"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/fishes/blowfish.h"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/generic.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/utils.h"
#include <atomic>
#include <sstream>
#include <sys/mman.h>
#include <thread>
using namespace api;
using namespace gen;
using namespace libpgfe;

namespace {
typedef std::function<std::string()> Job; // what is wrong, or nothing
std::string differs(const char *what, const Bytes &got, const Bytes &exp) {
    return got == exp ? "" : std::string(what) + " gave " + show(got) + " and not " + show(exp);
}
std::string differs(const char *what, const std::string &got, const std::string &exp) {
    return got == exp ? "" : std::string(what) + " gave " + show_text(got) + " and not " + show_text(exp);
}
std::string differs(const char *what, uint64_t got, uint64_t exp) {
    return got == exp ? "" : std::string(what) + " gave " + std::to_string(got) + " and not " + std::to_string(exp);
}
// Memory that is read only while threads run
struct Frozen
{
    void *p;
    size_t n;
    bool on = false;
    explicit Frozen(size_t size) : n((size + 4095) / 4096 * 4096) {
        p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) throw std::bad_alloc();
    }
    ~Frozen() { munmap(p, n); }
    void freeze() {
        if (mprotect(p, n, PROT_READ) == 0) on = true;
    }
};
// What the threads share
struct Shared
{
    Bytes key, msg;
    std::string hexed, based;
    int base, alg;
    Frozen fz{sizeof(pgfe_blowfish_ctx)};
    pgfe_blowfish_ctx *fish;
    std::unique_ptr<ref::Blowfish> rfish;
    std::unique_ptr<SequentialData> sd;
    std::unique_ptr<HOTP> hotp;
    uint64_t counter = 0;
    std::unique_ptr<HashEncoder> he;
    std::vector<uint8_t> mid; // a context in the middle of a message
    Bytes fed;
    bool mac;
    Base16 b16;
    Base32 b32;
    Base64 b64;
};
const char *const kinds[] = {"Blowfish buffers", "Blowfish units", "sequence", "HOTP", "hash", "HMAC", "context in mid-message", "base text", "hexadecimal text", "names", "getters", "objects fed"};

Job make_job(Case &k, const Shared &s, int kind) {
    switch (kind) {
    case 0: {
        bool enc = k.pick(2);
        size_t at = k.pick(s.msg.size() + 1), n = k.pick(s.msg.size() - at + 1);
        Bytes in(s.msg.begin() + (ptrdiff_t)at, s.msg.begin() + (ptrdiff_t)(at + n)), exp = s.rfish->buffer(in, enc);
        return [&s, enc, at, n, exp] {
            Bytes o((n + 7) / 8 * 8);
            (enc ? pgfe_blowfish_encrypt : pgfe_blowfish_decrypt)(s.fish, s.msg.data() + at, n, o.data());
            return differs(enc ? "encryption" : "decryption", o, exp);
        };
    }
    case 1: {
        uint32_t l = (uint32_t)k.u64(), r = (uint32_t)k.u64(), l1 = l, r1 = r;
        bool enc = k.pick(2);
        if (enc) s.rfish->enc(l1, r1);
        else s.rfish->dec(l1, r1);
        return [&s, enc, l, r, l1, r1] {
            pgfe_fake_uint64_t u;
            u.left = l, u.right = r;
            (enc ? pgfe_blowfish_encrypt_unit : pgfe_blowfish_decrypt_unit)(s.fish, &u);
            return differs("left half", u.left, l1) + differs("right half", u.right, r1);
        };
    }
    case 2: {
        int how = (int)k.pick(6);
        return [&s, how] {
            const SequentialData &d = *s.sd;
            size_t n = 0;
            switch (how) {
            case 0: return differs("hex_str", d.hex_str(), ref::hex(s.msg));
            case 1: return differs("to_str", d.to_str(), gen::str(s.msg));
            case 2: {
                const uint8_t *p = d.to_pgfe_seq(n);
                return differs("to_pgfe_seq", Bytes(p, p + n), s.msg);
            }
            case 3: {
                SequentialData e(d);
                return differs("a copy", Bytes(e.begin(), e.end()), s.msg);
            }
            case 4: {
                SequentialData e(&d);
                return differs("a copy through a pointer", Bytes(e.begin(), e.end()), s.msg);
            }
            default:
                std::ostringstream os;
                os << d;
                return differs("stream", os.str(), gen::str(s.msg));
            }
        };
    }
    case 3: {
        unsigned digits = otp_digits(k);
        bool text = k.pick(2);
        uint32_t code = ref::hotp(s.alg, s.key, s.counter, digits);
        return [&s, digits, text, code] {
            const HOTP &o = *s.hotp;
            return text ? differs("generate_str", o.generate_str((uint8_t)digits), ref::zero_pad(code, digits)) : differs("generate", o.generate((uint8_t)digits), code);
        };
    }
    case 4: {
        int a = any_alg(k);
        uint64_t bits = ref::is_xof(a) ? k.pick(3000) : 0;
        Bytes exp = ref::hash(a, s.msg, bits);
        return [&s, a, bits, exp] {
            Bytes o(exp.size());
            hashes[a].encode(s.msg.data(), s.msg.size(), o.data(), bits);
            return differs(hashes[a].name, o, exp);
        };
    }
    case 5: {
        int a = fixed_alg(k);
        bool by_alg = k.pick(2);
        Bytes exp = ref::hmac(a, s.key, s.msg);
        return [&s, a, by_alg, exp] {
            Bytes o(exp.size());
            if (by_alg) pgfe_hmac(hmacs[a].choice, s.key.data(), s.key.size(), s.msg.data(), s.msg.size(), o.data());
            else hmacs[a].oneshot(s.key.data(), s.key.size(), s.msg.data(), s.msg.size(), o.data());
            return differs("HMAC", o, exp);
        };
    }
    case 6: {
        Bytes whole = s.fed;
        whole.insert(whole.end(), s.msg.begin(), s.msg.end());
        Bytes exp = s.mac ? ref::hmac(s.alg, s.key, whole) : ref::hash(s.alg, whole);
        return [&s, exp] {
            std::unique_ptr<max_align_t[]> mem(new max_align_t[s.mid.size() / sizeof(max_align_t) + 1]);
            memcpy((void *)mem.get(), s.mid.data(), s.mid.size());
            Bytes o(exp.size());
            if (s.mac) hmacs[s.alg].update(mem.get(), s.msg.data(), s.msg.size()), hmacs[s.alg].digest(mem.get(), o.data());
            else hashes[s.alg].update(mem.get(), s.msg.data(), s.msg.size()), hashes[s.alg].digest(mem.get(), o.data(), 0);
            return differs("a copy of a context", o, exp);
        };
    }
    case 7: {
        bool enc = k.pick(2);
        return [&s, enc] {
            if (enc) {
                std::string t((s.msg.size() + 4) / 3 * 8 + 17, '?');
                t.resize(bases[s.base].enc(s.msg.data(), s.msg.size(), &t[0]));
                return differs("base text", t, s.based);
            }
            Bytes o(s.based.size() + 9);
            o.resize(bases[s.base].dec(s.based.c_str(), o.data()));
            return differs("decoding", o, s.msg);
        };
    }
    case 8: {
        int how = (int)k.pick(4);
        return [&s, how] {
            if (how == 0) return differs("pgfe_hash_length", pgfe_hash_length(s.hexed.c_str()), s.msg.size());
            Bytes o(s.hexed.size() + 1);
            if (how == 1) {
                o.resize(pgfe_hex_string_to_hash(s.hexed.c_str(), o.data()));
                return differs("bytes", o, s.msg);
            }
            std::string t(2 * s.msg.size() + 1, '?');
            if (how == 2) t.resize(pgfe_hash_to_hex_string(s.msg.data(), s.msg.size(), &t[0]));
            else t.resize(pgfe_hash_string_clean(s.hexed.c_str(), &t[0]));
            return differs("digits", t, s.hexed);
        };
    }
    case 9: {
        int a = any_alg(k);
        return [a] {
            std::string name = hashes[a].name;
            auto choice = hashes[a].choice;
            std::string r = differs("selection by name", (uint64_t)_algstr(name), (uint64_t)choice);
            try {
                _algstr("no " + name);
                r += "a wrong name was accepted";
            }
            catch (std::out_of_range &) {
            }
            return r;
        };
    }
    case 10:
        return [&s] {
            const HashEncoder &h = *s.he;
            const Base16 &b16 = s.b16;
            const Base32 &b32 = s.b32;
            const Base64 &b64 = s.b64;
            return differs("digest size", h.digest_size(), ref::digest_size(s.alg)) + differs("block size", h.block_size(), ref::block_size(s.alg)) +
                   differs("algorithm", (uint64_t)h.algorithm(), (uint64_t)hashes[s.alg].choice) + differs("unit", b16.unit_size(), 1) + differs("unit", b32.unit_size(), 5) +
                   differs("chunk", b64.chunk_size(), 4) + differs("bits", b64.bit_size(), 6) + differs("alphabet", b32.alphabet_size(), 32);
        };
    default: { // objects of the thread's own, fed with what is shared
        int how = (int)k.pick(3), b = s.base;
        return [&s, how, b] {
            const SequentialData &d = *s.sd;
            if (how == 0) {
                Blowfish f(gen::str(s.key));
                SequentialData e = f.encrypt(d);
                return differs("encryption of the sequence", Bytes(e.begin(), e.end()), s.rfish->buffer(s.msg, true));
            }
            if (how == 1) {
                HOTP o(hashes[s.alg].choice);
                o.set_secret(d);
                o.set_counter(s.counter);
                return differs("code of the sequence", o.generate(8), ref::hotp(s.alg, s.msg, s.counter, 8));
            }
            std::string t;
            if (b == ref::B16) t = Base16().encode(d);
            else if (b == ref::B32 || b == ref::B32HEX) t = Base32(b == ref::B32HEX).encode(d);
            else t = Base64(b == ref::B64URL).encode(d);
            return differs("base text of the sequence", t, s.based);
        };
    }
    }
}
void share(Case &c) {
    Shared s;
    s.key = c.bytes(1 + c.pick(56));
    s.msg = c.bytes(c.chance(1, 8) ? c.pick(3000) : c.pick(300));
    s.alg = 1 + (int)c.pick(ref::A_FIXED - 1);
    s.base = (int)c.pick(ref::B_COUNT);
    s.hexed = ref::hex(s.msg);
    s.based = ref::encode(s.base, s.msg);
    s.counter = c.weird64();
    s.mac = c.pick(2);
    s.fish = (pgfe_blowfish_ctx *)s.fz.p;
    pgfe_blowfish_init(s.fish, s.key.data(), s.key.size());
    s.rfish.reset(new ref::Blowfish(s.key));
    s.sd.reset(new SequentialData(s.msg.data(), s.msg.size()));
    s.hotp.reset(new HOTP(s.key.data(), s.key.size(), hashes[s.alg].choice));
    s.hotp->set_counter(s.counter);
    s.he.reset(new HashEncoder(hashes[s.alg].choice));
    s.fed = c.bytes(c.pick(300));
    s.mid.resize(s.mac ? hmacs[s.alg].ctx_size : hashes[s.alg].ctx_size);
    {
        std::unique_ptr<max_align_t[]> mem(new max_align_t[s.mid.size() / sizeof(max_align_t) + 1]);
        if (s.mac) {
            hmacs[s.alg].init(mem.get());
            hmacs[s.alg].set_key(mem.get(), s.key.data(), s.key.size());
            hmacs[s.alg].update(mem.get(), s.fed.data(), s.fed.size());
        }
        else {
            hashes[s.alg].init(mem.get());
            hashes[s.alg].update(mem.get(), s.fed.data(), s.fed.size());
        }
        memcpy(s.mid.data(), (void *)mem.get(), s.mid.size());
    }
    Bytes before((uint8_t *)s.fish, (uint8_t *)s.fish + sizeof *s.fish);
    const int n_kinds = sizeof kinds / sizeof *kinds;
    int n = c.chance(1, 12) ? 5 + (int)c.pick(4) : 2 + (int)c.pick(3), one = c.chance(2, 3) ? (int)c.pick((uint64_t)n_kinds) : -1;
    size_t calls = 1 + c.pick(8);
    c.note("%d threads with %zu calls each: %s; %s, key %s, message %s", n, calls, one < 0 ? "any" : kinds[one], hashes[s.alg].name, show(s.key).c_str(), show(s.msg).c_str());
    c.label("%s", one < 0 ? "any" : kinds[one]);
    std::vector<std::vector<Job>> jobs((size_t)n);
    for (auto &v : jobs) {
        Src src;
        src.seed(c.pick(1ULL << 32));
        Case k(&src);
        for (size_t i = 0; i < calls; i++) v.push_back(make_job(k, s, one < 0 ? (int)k.pick((uint64_t)n_kinds) : one));
    }
    if (c.chance(1, 2)) s.fz.freeze();
    std::atomic<int> ready{0};
    std::vector<std::string> bad((size_t)n);
    std::vector<std::thread> th;
    for (int i = 0; i < n; i++)
        th.emplace_back([&, i] {
            ready++;
            while (ready < n) {}
            for (auto &j : jobs[(size_t)i]) {
                std::string r;
                try {
                    r = j();
                }
                catch (std::exception &e) {
                    r = std::string("exception: ") + e.what();
                }
                if (!r.empty() && bad[(size_t)i].empty()) bad[(size_t)i] = r;
            }
        });
    for (auto &t : th) t.join();
    for (int i = 0; i < n; i++)
        if (!bad[(size_t)i].empty()) c.fail("thread %d: %s", i, bad[(size_t)i].c_str());
    if (memcmp(before.data(), s.fish, before.size())) c.fail("the key schedule has changed");
    c.nontrivial();
}
} // namespace

PROP(X10, "two or more threads read the same context, object or memory at the same time") { share(c); }
// The same, as the first thing a process does
PROP(X10first, "two or more threads read the same context, object or memory at the same time") { in_fresh_process(c, share); c.nontrivial(); }
