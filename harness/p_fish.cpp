// F01 F02 F03: Blowfish
#include "common.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include <sys/mman.h>
#include <unistd.h>
using namespace api;
using namespace gen;
using libpgfe::SequentialData;

namespace {
Bytes fish_key(Case &c, bool cstr = false) {
    size_t n;
    if (c.deep == Case::BIG && (n = c.big(72))) {}
    else switch (c.chance(1, 100) ? 4 : c.weighted({6, 3, 2, 1})) {
    case 4: n = 65000 + c.pick(6000); break;
    case 0: n = 1 + c.pick(56); break;
    case 1: n = 1 + c.pick(8); break;
    case 2: n = 57 + c.pick(30); break; // only the first 72 bytes count
    default: n = 1 + c.pick(700);
    }
    Bytes k = c.bytes(n);
    if (cstr) {
        k = cut_at_nul(k);
        if (k.empty()) k.push_back((uint8_t)(1 + c.pick(255)));
    }
    return k;
}
Bytes fish_text(Case &c) {
    size_t n;
    if (c.deep == Case::BIG && (n = c.big(8))) return c.bytes(n);
    switch (c.deep == Case::LIFE ? 2 : c.weighted({6, 4, 2, 1})) {
    case 0: n = c.pick(34); break;
    case 1: n = 8 * c.pick(40) + c.pick(3); break;
    case 2: n = c.len(8, 3000); break;
    default: n = c.len(4096, 140000);
    }
    return c.bytes(n);
}
size_t padded(size_t n) { return (n + 7) / 8 * 8; }
const char *key_class(const Bytes &k) { return k.size() <= 4 ? "key of 1-4 bytes" : k.size() <= 56 ? "key of 5-56 bytes" : k.size() <= 72 ? "key of 57-72 bytes" : "longer key"; }
// A block with a value in some round, of encryption or decryption, that is hardly met by chance
uint64_t rare_block(Case &c, const ref::Blowfish &r, bool enc) {
    static const uint32_t rare[] = {0, 0xffffffff, 1, 0x80000000, 0x7fffffff, 0x00ff00ff, 0xff00ff00, 0x01010101, 0x80808080};
    int round = (int)c.pick(16);
    auto P = [&](int i) { return r.P[enc ? i : 17 - i]; };
    uint32_t a = rare[c.pick(sizeof rare / sizeof *rare)], b = c.pick(2) ? (uint32_t)c.u64() : c.pick(2) ? a : rare[c.pick(sizeof rare / sizeof *rare)];
    uint32_t l = a ^ P(round), q = b; // what goes into the round's function is a, and the other half b
    if (c.pick(2)) q ^= r.F(a);       // or b after it
    while (round--) {
        std::swap(l, q);
        q ^= r.F(l);
        l ^= P(round);
    }
    return (uint64_t)l << 32 | q;
}
} // namespace

PROP_BODY(F01, "at least two units are processed under one key") {
    Bytes k = fish_key(c);
    c.label("%s", key_class(k));
    c.note("key %s", show(k).c_str());
    Ctx x(c, sizeof(pgfe_blowfish_ctx));
    {
        In ik(c, k);
        c.op();
        pgfe_blowfish_init((pgfe_blowfish_ctx *)x.p(), ik.u8(), k.size());
        ik.verify();
    }
    x.check();
    const pgfe_blowfish_ctx *ctx = (const pgfe_blowfish_ctx *)x.p();
    Bytes before((const uint8_t *)ctx, (const uint8_t *)ctx + sizeof *ctx);
    std::unique_ptr<ref::Blowfish> r;
    if (c.oracle) r.reset(new ref::Blowfish(k));
    size_t units = c.steps(1, 12);
    uint64_t block = c.u64();
    for (size_t i = 0; i < units; i++) {
        bool enc = c.pick(2);
        switch (c.weighted({3, 2, 3, 2})) {
        case 0: block = c.u64(); break;
        case 1: block = c.weird64(); break;
        case 2: break; // the result of the one before
        default:
            if (!r) r.reset(new ref::Blowfish(k));
            block = rare_block(c, *r, enc);
            c.label("rare value in a round");
        }
        pgfe_fake_uint64_t u;
        u.left = (uint32_t)(block >> 32);
        u.right = (uint32_t)block;
        uint32_t l = u.left, q = u.right, el = l, eq = q;
        c.note("%s %016llx", enc ? "encrypt" : "decrypt", (unsigned long long)block);
        c.op();
        if (enc) pgfe_blowfish_encrypt_unit(ctx, &u);
        else pgfe_blowfish_decrypt_unit(ctx, &u);
        if (r) {
            if (enc) r->enc(el, eq);
            else r->dec(el, eq);
        }
        block = (uint64_t)u.left << 32 | u.right;
        c.same(enc ? "encrypted unit" : "decrypted unit", block, [&] { return (uint64_t)el << 32 | eq; });
        if (c.chance(1, 2)) { // and back
            pgfe_fake_uint64_t v = u;
            c.op();
            if (enc) pgfe_blowfish_decrypt_unit(ctx, &v);
            else pgfe_blowfish_encrypt_unit(ctx, &v);
            c.same("inverse", (uint64_t)v.left << 32 | v.right, [&] { return (uint64_t)l << 32 | q; });
        }
    }
    c.require("the key schedule is unchanged", !memcmp(before.data(), ctx, sizeof *ctx));
    if (units > 1) c.nontrivial();
}
PROP_BIG(F01)
PROP_LIFE(F01)

PROP_BODY(F02, "the buffer is not empty") {
    Bytes k = fish_key(c), t = fish_text(c);
    bool enc = c.pick(3) != 0;
    std::unique_ptr<ref::Blowfish> r;
    if (t.size() >= 16 && t.size() < 4096 && c.chance(1, 8)) {
        r.reset(new ref::Blowfish(k));
        relate_blocks(c, t, *r);
    }
    c.label("%s", key_class(k));
    c.label("%s", t.empty() ? "empty" : t.size() % 8 ? "filled up" : "whole blocks");
    c.note("key %s, %s %s", show(k).c_str(), enc ? "encrypt" : "decrypt", show(t).c_str());
    bool was = c.mem_fatal;
    c.mem_fatal = true; // "writes exactly the padded length"
    Ctx x(c, sizeof(pgfe_blowfish_ctx));
    pgfe_blowfish_ctx *ctx = (pgfe_blowfish_ctx *)x.p();
    c.op();
    pgfe_blowfish_init(ctx, k.data(), k.size());
    if (c.oracle && !r) r.reset(new ref::Blowfish(k));
    In in(c, t);
    Out o(c, padded(t.size()));
    c.op();
    size_t n = enc ? pgfe_blowfish_encrypt(ctx, in.u8(), t.size(), o.u8()) : pgfe_blowfish_decrypt(ctx, in.u8(), t.size(), o.u8());
    o.check();
    in.verify();
    c.same("returned length", n, [&] { return (uint64_t)padded(t.size()); });
    if (n != padded(t.size())) c.fail("the returned length is %zu", n);
    c.same("output", o.u8(), n, [&] { return r->buffer(t, enc); });
    if (enc) { // and back
        In in2(c, o.u8(), n);
        Out o2(c, n);
        c.op();
        size_t m = pgfe_blowfish_decrypt(ctx, in2.u8(), n, o2.u8());
        o2.check();
        c.same("length of the decryption", m, [&] { return (uint64_t)n; });
        Bytes z = t;
        z.resize(n);
        c.same("decryption", o2.u8(), n, [&] { return z; });
    }
    c.mem_fatal = was;
    if (!t.empty()) c.nontrivial();
}
PROP_BIG(F02)

// More than 4 GiB: one page mapped again and again; the expected blocks repeat with it
static void long_buffer(Case &c) {
    const size_t PGSZ = 1 << 20;
    size_t n = (1ULL << 32) + 1 + c.pick(64), outn;
    if (g_thorough && c.chance(1, 2)) n -= 1ULL << 31;
    outn = padded(n);
    bool enc = c.pick(2);
    Bytes k = fish_key(c), page = c.bytes(PGSZ);
    c.label("longer than 2 GiB");
    c.note("%s %zu bytes, key %s", enc ? "encrypt" : "decrypt", n, show(k).c_str());
    auto map_repeated = [&](size_t len, const Bytes *fill) {
        size_t total = (len + PGSZ - 1) / PGSZ * PGSZ;
        int fd = memfd_create("long", 0);
        if (ftruncate(fd, (off_t)PGSZ)) throw std::bad_alloc();
        uint8_t *p = (uint8_t *)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) throw std::bad_alloc();
        for (size_t o = 0; o < total; o += PGSZ)
            if (mmap(p + o, PGSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) throw std::bad_alloc();
        if (fill) memcpy(p, fill->data(), PGSZ);
        close(fd);
        return p;
    };
    uint8_t *in = map_repeated(n, &page), *out = map_repeated(outn, nullptr);
    pgfe_blowfish_ctx ctx;
    pgfe_blowfish_init(&ctx, k.data(), k.size());
    c.op();
    size_t got = enc ? pgfe_blowfish_encrypt(&ctx, in, n, out) : pgfe_blowfish_decrypt(&ctx, in, n, out);
    c.same("returned length", got, [&] { return (uint64_t)outn; });
    // the last window first holds a whole page of output, of which the beginning is then overwritten
    ref::Blowfish r(k);
    Bytes want = r.buffer(page, enc);
    size_t rest = n % PGSZ;
    Bytes last(page.begin(), page.begin() + (ptrdiff_t)rest);
    Bytes tail = r.buffer(last, enc);
    memcpy(want.data(), tail.data(), tail.size());
    c.same("last window of the output", out, PGSZ, [&] { return want; });
    munmap(in, (n + PGSZ - 1) / PGSZ * PGSZ);
    munmap(out, (outn + PGSZ - 1) / PGSZ * PGSZ);
    c.nontrivial();
}
static Reg reg_long("F02long", "every case", long_buffer, 240);

// Copies an object, where it can be copied: the copy and the original go on independently
template <class T> T *copy_of(const T &o) {
    if constexpr (std::is_copy_constructible_v<T>) return new T(o);
    else return nullptr;
}
template <class T> bool assign_to(T &a, const T &b) {
    if constexpr (std::is_copy_assignable_v<T>) {
        a = b;
        return true;
    }
    else return false;
}

PROP_BODY(F03, "at least two texts are processed by one object") {
    Place<libpgfe::Blowfish> p(c);
    int kf = (int)c.pick(4);
    Bytes k = fish_key(c, kf == 1);
    static const char *const forms[] = {"bytes", "C string", "std::string", "sequence"};
    c.note("key %s as %s", show(k).c_str(), forms[kf]);
    c.label("key as %s", forms[kf]);
    {
        In ik(c, kf == 1 ? gen::str(k).c_str() : (const char *)k.data(), kf == 1 ? k.size() + 1 : k.size());
        std::string s = gen::str(k);
        SequentialData sd = seq(k);
        c.op();
        if (kf == 0) p.make(ik.u8(), k.size());
        else if (kf == 1) p.make(ik.cs());
        else if (kf == 2) p.make(s);
        else p.make(sd);
        ik.verify();
        c.require("the key argument is unchanged", s == gen::str(k) && bytes_of(sd) == k);
    }
    if (std::find(k.begin(), k.end(), 0) != k.end()) c.label("zero byte in the key");
    std::unique_ptr<ref::Blowfish> r;
    if (c.oracle) r.reset(new ref::Blowfish(k));
    std::unique_ptr<libpgfe::Blowfish> copy;
    libpgfe::Blowfish *cur = &*p;
    bool first = true; // the first object is still there
    size_t n = c.steps(1, 8);
    Bytes prev;
    for (size_t i = 0; i < n; i++) {
        switch (c.weighted({16, 2, 1, 1, 1})) {
        case 1: // go on with a copy of the present one, which goes away with its own if it is a copy
            if (libpgfe::Blowfish *q = copy_of(*cur)) {
                c.note("copy the object");
                c.label("copied object");
                c.op();
                if (!copy && c.chance(1, 2)) { // the first object goes away
                    p.destroy();
                    memset(p.raw(), (int)c.pick(256), sizeof(libpgfe::Blowfish));
                    first = false;
                }
                copy.reset(q);
                cur = q;
            }
            break;
        case 2: { // an object with another key becomes one with this key
            Bytes k2 = fish_key(c);
            std::unique_ptr<libpgfe::Blowfish> q(new libpgfe::Blowfish(k2.data(), k2.size()));
            if (assign_to(*q, (const libpgfe::Blowfish &)*cur)) {
                c.note("assign to an object with key %s", show(k2).c_str());
                c.label("assigned object");
                c.op();
                copy = std::move(q);
                cur = copy.get();
            }
            break;
        }
        case 3: // back to the first object
            if (!first) break;
            c.note("the first object");
            copy.reset();
            cur = &*p;
            break;
        case 4: { // another object in between
            Bytes k2 = fish_key(c);
            libpgfe::Blowfish q(k2.data(), k2.size());
            libpgfe::SequentialData s = q.encrypt(k2.data(), k2.size());
            c.op();
            if (r) {
                ref::Blowfish r2(k2);
                Bytes e = r2.buffer(k2, true);
                if (bytes_of(s) != e) c.fail("another object encrypts %s to %s, expected %s", show(k2).c_str(), show(bytes_of(s)).c_str(), show(e).c_str());
            }
            break;
        }
        default: break;
        }
        libpgfe::Blowfish &o = *cur;
        libpgfe::AbstractSymmetricCrypter &ab = o;
        int f = (int)c.pick(4);
        bool enc = c.pick(2), base = c.chance(1, 3);
        Bytes t = prev.size() && prev.size() < 5000000 && c.chance(1, 3) ? prev : fish_text(c);
        if (f == 1) t = cut_at_nul(t);
        c.note("%s%s %s as %s", base ? "interface " : "", enc ? "encrypt" : "decrypt", show(t).c_str(), forms[f]);
        c.op();
        Bytes got;
        if (f == 0) {
            In in(c, t);
            got = bytes_of(base ? (enc ? ab.encrypt(in.u8(), t.size()) : ab.decrypt(in.u8(), t.size())) : (enc ? o.encrypt(in.u8(), t.size()) : o.decrypt(in.u8(), t.size())));
            in.verify();
        }
        else if (f == 1) {
            In in(c, gen::str(t));
            got = bytes_of(base ? (enc ? ab.encrypt(in.cs()) : ab.decrypt(in.cs())) : (enc ? o.encrypt(in.cs()) : o.decrypt(in.cs())));
        }
        else if (f == 2) {
            std::string s = gen::str(t);
            got = bytes_of(base ? (enc ? ab.encrypt(s) : ab.decrypt(s)) : (enc ? o.encrypt(s) : o.decrypt(s)));
            c.require("the argument is unchanged", s == gen::str(t));
        }
        else {
            SequentialData s = seq(t);
            got = bytes_of(base ? (enc ? ab.encrypt(s) : ab.decrypt(s)) : (enc ? o.encrypt(s) : o.decrypt(s)));
            c.require("the argument is unchanged", bytes_of(s) == t);
        }
        c.same(enc ? "encryption" : "decryption", got.data(), got.size(), [&] { return r->buffer(t, enc); });
        prev = got;
        c.label("text as %s%s", forms[f], base ? ", interface" : "");
    }
    if (n > 1) c.nontrivial();
}
PROP_BIG(F03)
PROP_LIFE(F03)
