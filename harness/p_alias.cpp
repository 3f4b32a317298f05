// X08: outputs that take the place of inputs
#include "common.hpp"
#include "libpgfe/fishes/blowfish.h"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/utils.h"
#include <cctype>
using namespace api;
using namespace gen;
using namespace libpgfe;

namespace {
// A buffer in which inputs and outputs lie, and what it ought to hold
struct Arena
{
    Case &c;
    Out o;
    Bytes want;
    Arena(Case &c, const Bytes &b) : c(c), o(c, b.size()), want(b) {
        if (!b.empty()) memcpy(o.u8(), b.data(), b.size());
    }
    size_t size() const { return want.size(); }
    uint8_t *at(size_t i) { return o.u8() + i; }
    Bytes slice(size_t i, size_t n) const { return Bytes(want.begin() + (ptrdiff_t)i, want.begin() + (ptrdiff_t)(i + n)); }
    void put(size_t i, const Bytes &b) {
        if (!b.empty()) memcpy(want.data() + i, b.data(), b.size());
    }
    void check(const char *what) {
        o.check();
        c.same(what, o.u8(), size(), [&] { return want; });
    }
};
// Where an output of n bytes goes beside an input at i of m bytes
size_t place(Case &c, Arena &a, size_t i, size_t m, size_t n) {
    size_t last = a.size() - n, p;
    switch (c.weighted({5, 3, 3, 2})) {
    case 0: p = i; break;                                      // over its beginning
    case 1: p = m > n ? i + m - n : i; break;                  // over its end
    case 2: p = i + c.pick(m + 1); break;                      // inside
    default: p = i > n ? i - c.pick(n + 1) : c.pick(last + 1); // reaching in from the left
    }
    if (p > last) p = last;
    c.label("%s", p + n <= i || p >= i + m ? "apart" : p == i ? "output over the beginning" : p < i ? "output reaches in from the left" : p + n > i + m ? "output reaches out to the right" : "output inside");
    return p;
}
// Hashes of what lies in a buffer, written into it
bool hash_chain(Case &c) {
    int a = any_alg(c);
    const HashApi &h = hashes[a];
    size_t block = ref::block_size(a);
    size_t base = c.weighted({3, 1}) ? c.len(block, 2000) : ref::digest_size(a);
    Bytes init = c.bytes(base);
    init.resize(base + 600);
    Arena ar(c, init);
    size_t rounds = 1 + c.pick(6);
    c.label("%s", h.name);
    c.note("%s of parts of %zu bytes, %zu rounds", h.name, init.size(), rounds);
    bool any = false;
    while (rounds--) {
        uint64_t bits = ref::is_xof(a) ? c.pick(2) ? 8 * ref::digest_size(a) : c.pick(4000) : 0;
        size_t n = ref::is_xof(a) ? bits_to_bytes(bits) : ref::digest_size(a);
        size_t i = c.pick(3) ? 0 : c.pick(base + 1), m = c.pick(3) ? c.pick(base + 1 - i) : base - i;
        if (!c.pick(3)) i = 0, m = n; // the last output
        size_t p = place(c, ar, i, m, n);
        Bytes msg = ar.slice(i, m), d;
        int how = c.weighted({4, 3, 2, 1});
        if (how == 3) { // up to its zero byte
            size_t k = 0;
            while (i + k < ar.size() && ar.want[i + k]) k++;
            if (i + k == ar.size()) how = 0;
            else msg = ar.slice(i, k);
        }
        static const char *const names[] = {"one call", "context", "several parts", "string"};
        c.note("%s: %zu bytes at %zu, output of %zu at %zu", names[how], msg.size(), i, n, p);
        c.label("%s", names[how]);
        c.op();
        if (how == 0) h.encode(ar.at(i), m, ar.at(p), bits);
        else if (how == 1) {
            Ctx x(c, h.ctx_size);
            h.init(x.p());
            size_t k = c.pick(m + 1);
            c.op();
            h.update(x.p(), ar.at(i), k);
            c.op();
            h.update(x.p(), ar.at(i + k), m - k);
            c.op();
            h.digest(x.p(), ar.at(p), bits);
            x.check();
        }
        else if (how == 2) {
            std::vector<Part> ps;
            msg.clear();
            for (size_t k = parts_fitting(1 + c.pick(3)); k--;) {
                size_t q = c.pick(m + 1), l = c.pick(m + 1 - q);
                ps.push_back({ar.at(i + q), l});
                Bytes s = ar.slice(i + q, l);
                msg.insert(msg.end(), s.begin(), s.end());
            }
            h.encode_multi(ar.at(p), bits, ps.data(), ps.size());
        }
        else h.encode_default(ar.at(i), ar.at(p), bits);
        if (c.oracle) ar.put(p, ref::hash(a, msg, bits));
        ar.check("buffer");
        if (p < i + m && i < p + n) any = true;
    }
    return any;
}
// HMACs whose output lies over message or key
bool hmac_chain(Case &c) {
    int a = fixed_alg(c);
    const HmacApi &h = hmacs[a];
    size_t block = ref::block_size(a), n = ref::digest_size(a), base = 1 + c.len(block, 1200);
    Bytes init = c.bytes(base);
    init.resize(base + n);
    Arena ar(c, init);
    size_t rounds = 1 + c.pick(6);
    c.label("%s", h.name);
    c.note("HMAC %s of parts of %zu bytes, %zu rounds", h.name, init.size(), rounds);
    bool any = false;
    while (rounds--) {
        size_t ki = c.pick(base), kn = c.pick(3) ? c.pick(base - ki + 1) : n < base - ki ? n : base - ki;
        size_t i = c.pick(3) ? 0 : c.pick(base), m = c.pick(3) ? c.pick(base - i + 1) : n < base - i ? n : base - i;
        bool over_key = c.pick(3) == 0;
        size_t p = over_key ? place(c, ar, ki, kn, n) : place(c, ar, i, m, n);
        Bytes key = ar.slice(ki, kn), msg = ar.slice(i, m);
        int how = c.weighted({3, 2, 3});
        c.note("key of %zu at %zu, message of %zu at %zu, output at %zu, form %d", kn, ki, m, i, p, how);
        c.label("output over %s", over_key ? "the key" : "the message");
        c.op();
        if (how == 0) h.oneshot(ar.at(ki), kn, ar.at(i), m, ar.at(p));
        else if (how == 1) pgfe_hmac(h.choice, ar.at(ki), kn, ar.at(i), m, ar.at(p));
        else {
            Ctx x(c, h.ctx_size);
            h.init(x.p());
            c.op();
            h.set_key(x.p(), ar.at(ki), kn);
            c.op();
            h.update(x.p(), ar.at(i), m);
            c.op();
            h.digest(x.p(), ar.at(p));
            x.check();
        }
        if (c.oracle) ar.put(p, ref::hmac(a, key, msg));
        ar.check("buffer");
        if ((p < i + m && i < p + n) || (p < ki + kn && ki < p + n)) any = true;
    }
    return any;
}
// Blowfish buffers encrypted and decrypted in place
bool fish_chain(Case &c) {
    Bytes k = c.bytes(1 + c.pick(56)), t = c.bytes(c.weighted({3, 1}) ? c.len(8, 300) : c.pick(30));
    size_t n = t.size(), full = (n + 7) / 8 * 8;
    std::unique_ptr<ref::Blowfish> r;
    if (c.chance(1, 6)) { // blocks related to the ones before
        r.reset(new ref::Blowfish(k));
        relate_blocks(c, t, *r);
    }
    Bytes init = t;
    Bytes junk = c.bytes(full - n);
    init.insert(init.end(), junk.begin(), junk.end());
    Arena ar(c, init);
    c.note("Blowfish in place, key %s, %zu bytes", show(k).c_str(), n);
    pgfe_blowfish_ctx x;
    c.op();
    pgfe_blowfish_init(&x, k.data(), k.size());
    if (c.oracle && !r) r.reset(new ref::Blowfish(k));
    size_t rounds = 1 + c.pick(5);
    while (rounds--) {
        bool enc = c.pick(3) != 0;
        c.note("%s %zu bytes", enc ? "encrypt" : "decrypt", n);
        c.label("%s", enc ? "encrypt" : "decrypt");
        c.op();
        size_t m = enc ? pgfe_blowfish_encrypt(&x, ar.at(0), n, ar.at(0)) : pgfe_blowfish_decrypt(&x, ar.at(0), n, ar.at(0));
        c.same("returned length", m, [&] { return (uint64_t)((n + 7) / 8 * 8); });
        if (c.oracle) ar.put(0, r->buffer(ar.slice(0, n), enc));
        ar.check("buffer");
        n = c.pick(3) ? full : full - c.pick(full < 8 ? full + 1 : 8);
    }
    return full > 0;
}
// Texts decoded over themselves
bool text_in_place(Case &c) {
    bool is_hex = c.pick(4) == 0;
    int b = (int)c.pick(ref::B_COUNT);
    Bytes x = c.bytes(c.weighted({3, 1}) ? c.len(60, 2000) : c.pick(20));
    std::string t = is_hex ? ref::hex(x) : ref::encode(b, x);
    if (!is_hex && c.chance(1, 3))
        while (!t.empty() && t.back() == '=') t.pop_back();
    if ((is_hex || b < ref::B64) && c.chance(1, 2))
        for (auto &ch : t) ch = (char)(c.pick(2) ? (ch >= 'A' && ch <= 'Z' ? ch + 32 : ch) : (ch >= 'a' && ch <= 'z' ? ch - 32 : ch));
    size_t cut = 0;
    if (is_hex && !t.empty() && c.chance(1, 3)) cut = 1; // an odd number of digits
    t = t.substr(cut);
    bool prefix = is_hex && c.chance(1, 4);
    if (c.chance(1, 2)) {
        size_t w = 1 + c.pick(9);
        std::string s;
        for (size_t i = 0; i < t.size(); i++) {
            if (i && i % w == 0) s += c.pick(2) ? ' ' : '\n';
            s += t[i];
        }
        t = s;
        c.label("with blanks");
    }
    if (prefix) t = "0x" + t;
    c.label("%s", is_hex ? "hexadecimal" : bases[b].name);
    c.note("%s text %s decoded over itself", is_hex ? "hexadecimal" : bases[b].name, show_text(t).c_str());
    Bytes e = is_hex ? ref::hex_parse(t) : x;
    Out o(c, t.size() + 1);
    memcpy(o.u8(), t.c_str(), t.size() + 1);
    c.op();
    size_t n = is_hex ? pgfe_hex_string_to_hash(o.cs(), o.u8()) : bases[b].dec(o.cs(), o.u8());
    o.check();
    if (n > t.size()) c.fail("%zu bytes decoded from %zu characters", n, t.size());
    c.same("decoded bytes", o.u8(), n, [&] { return e; });
    return !e.empty();
}
// Encoders fed with the digests they gave
template <class E> void feed_own(Case &c, E &e, const SequentialData *d, size_t from, size_t n, int how) {
    c.op();
    if (how == 0) e.update(d->to_pgfe_seq() + from, n);
    else if (how == 1) e.update(const_cast<SequentialData &>(*d)); // the object behind it is not const
    else {
        std::string s = d->to_str();
        e.update(s);
    }
}
bool encoder_chain(Case &c) {
    bool mac = c.pick(3) == 0;
    int a = mac ? fixed_alg(c) : any_alg(c);
    Bytes key = hmac_key(c, ref::block_size(a)), cur, msg = c.bytes(c.pick(200));
    std::unique_ptr<HMACEncoder> m;
    std::unique_ptr<HashEncoder> h;
    c.label("%s", mac ? "HMACEncoder" : "HashEncoder");
    c.note("%s %s fed with its own digests", mac ? "HMACEncoder" : "HashEncoder", hashes[a].name);
    c.op();
    if (mac) m.reset(new HMACEncoder(hashes[a].choice, key.data(), key.size()));
    else h.reset(new HashEncoder(hashes[a].choice));
    c.op();
    if (mac) m->update(msg.data(), msg.size());
    else h->update(msg.data(), msg.size());
    size_t rounds = 2 + c.pick(5);
    const SequentialData *d = nullptr;
    for (size_t i = 0; i < rounds; i++) {
        uint64_t bits = ref::is_xof(a) && c.pick(2) ? 8 * (1 + c.pick(300)) : 0;
        c.op();
        d = mac ? m->get_digest() : bits ? h->get_digest(bits) : h->get_digest();
        cur = bytes_of(*d);
        c.same("digest", cur.data(), cur.size(), [&] { return mac ? ref::hmac(a, key, msg) : ref::hash(a, msg, ref::is_xof(a) ? bits ? bits : ref::digest_size(a) * 8 : 0); });
        c.op();
        if (mac) m->reset();
        else h->reset();
        msg.clear();
        size_t feeds = 1 + c.pick(3);
        while (feeds--) {
            int how = (int)c.pick(3);
            size_t from = how ? 0 : c.pick(cur.size() + 1), n = how ? cur.size() : c.pick(cur.size() - from + 1);
            if (!how && c.pick(2)) from = 0, n = cur.size();
            c.note("fed with bytes %zu to %zu, form %d", from, from + n, how);
            if (mac) feed_own(c, *m, d, from, n, how);
            else feed_own(c, *h, d, from, n, how);
            msg.insert(msg.end(), cur.begin() + (ptrdiff_t)from, cur.begin() + (ptrdiff_t)(from + n));
        }
    }
    return true;
}
} // namespace

PROP(X08, "an output lies, in whole or in part, over an input, or an encoder is fed with its digest") {
    bool any = false;
    switch (c.weighted({5, 4, 2, 3, 3})) {
    case 0: any = hash_chain(c); break;
    case 1: any = hmac_chain(c); break;
    case 2: any = fish_chain(c); break;
    case 3: any = text_in_place(c); break;
    default: any = encoder_chain(c);
    }
    if (any) c.nontrivial();
}
