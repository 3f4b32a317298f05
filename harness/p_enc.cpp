// E01 E02: encoder objects
#include "common.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
using namespace api;
using namespace gen;
using libpgfe::SequentialData;

namespace {
const char *const forms[] = {"bytes", "C string", "std::string", "sequence"};
// Feeds some data to an encoder, as the object itself or through a base class
template <class E> Bytes feed(Case &c, E &o, size_t block, const char *through) {
    Bytes d = c.data(block, c.chance(1, 40) ? 70000 : 700);
    int f = (int)c.pick(4);
    if (f == 1) d = cut_at_nul(d);
    c.note("%supdate %s as %s", through, show(d).c_str(), forms[f]);
    c.label("update as %s", forms[f]);
    c.op();
    if (f == 0) {
        In in(c, d.data(), d.size(), d.empty() && c.chance(1, 3));
        o.update(in.u8(), d.size());
        in.verify();
    }
    else if (f == 1) {
        In in(c, gen::str(d));
        o.update(in.cs());
        in.verify();
    }
    else if (f == 2) {
        std::string s = gen::str(d);
        o.update(s);
        c.require("the argument is unchanged", s == gen::str(d));
    }
    else {
        SequentialData s = seq(d);
        o.update(s);
        c.require("the argument is unchanged", bytes_of(s) == d);
    }
    return d;
}
// Moves an object elsewhere, where it can be moved; the old one goes away and its memory is used for something else
template <class T> bool move_away(Case &c, Place<T> &p, std::unique_ptr<T> &other, T *&cur) {
    if constexpr (std::is_move_constructible_v<T>) {
        c.note("move the object");
        c.label("moved object");
        c.op();
        std::unique_ptr<T> q(new T(std::move(*cur)));
        if (other) other = std::move(q);
        else {
            p.destroy();
            memset(p.raw(), (int)c.pick(256), sizeof(T));
            other = std::move(q);
        }
        cur = other.get();
        return true;
    }
    else return false;
}
} // namespace

PROP_BODY(E01, "a digest of something fed is checked after a reset") {
    int a = any_alg(c);
    size_t block = ref::block_size(a), dsz = ref::digest_size(a);
    Place<libpgfe::HashEncoder> p(c);
    c.note("HashEncoder %s", hashes[a].name);
    c.label("%s", hashes[a].name);
    c.op();
    libpgfe::HashEncoder *cur = &p.make(hashes[a].choice);
    std::unique_ptr<libpgfe::HashEncoder> other;
    Bytes msg;
    bool done = false; // a digest has been taken
    const SequentialData *last = nullptr; // and is still there
    Bytes kept;
    auto still_there = [&] {
        if (last && bytes_of(*last) != kept) c.fail("a returned digest changed from %s to %s", show(kept).c_str(), show(bytes_of(*last)).c_str());
    };
    size_t steps = c.steps(2, 22);
    int resets = 0;
    for (size_t i = 0; i < steps; i++) {
        still_there();
        if (c.chance(1, 16) && move_away(c, p, other, cur)) last = nullptr;
        libpgfe::HashEncoder &o = *cur;
        libpgfe::AbstractEncoder &ab = o;
        libpgfe::AbstractHashEncoder &ah = o;
        int what = c.weighted({8, 4, 3, 2});
        if (done && (what < 2)) what = 2;
        switch (what) {
        case 0: {
            Bytes d;
            int th = c.weighted({3, 2, 1});
            if (th == 0) d = feed(c, o, block, "");
            else if (th == 1) d = feed(c, ab, block, "interface ");
            else d = feed(c, ah, block, "hash interface ");
            msg.insert(msg.end(), d.begin(), d.end());
            break;
        }
        case 1: {
            uint64_t bits = 0;
            int how = c.weighted({3, 2, 3});
            if (how == 2) {
                if (ref::is_xof(a)) bits = xof_bits(c, block);
                else if (c.chance(1, 3)) bits = 8 * (dsz + c.pick(40)); // more than there is
                else bits = 8 * c.pick(dsz + 1);
            }
            c.note("%sdigest %llu", how == 1 ? "interface " : "", (unsigned long long)bits);
            c.op();
            const SequentialData *d = how == 0 ? o.get_digest() : how == 1 ? ab.get_digest() : o.get_digest(bits);
            if (!d) c.fail("get_digest returned null");
            Bytes got = bytes_of(*d);
            last = d;
            kept = got;
            c.same("digest", got.data(), got.size(), [&] {
                Bytes e = ref::hash(a, msg, ref::is_xof(a) ? (bits ? bits : dsz * 8) : 0);
                if (!ref::is_xof(a) && bits && bits / 8 < e.size()) e.resize(bits / 8);
                return e;
            });
            done = true;
            c.label("%s", how == 1 ? "digest by the interface" : bits ? "digest of a requested length" : "digest of the customary length");
            if (resets && !msg.empty()) c.nontrivial();
            break;
        }
        case 2: {
            bool base = c.chance(1, 3);
            c.note("%sreset", base ? "interface " : "");
            c.op();
            if (base) ab.reset();
            else o.reset();
            msg.clear();
            done = false;
            resets++;
            break;
        }
        default:
            c.same("algorithm()", o.algorithm(), [&] { return (uint64_t)hashes[a].choice; });
            c.same("digest_size()", o.digest_size(), [&] { return (uint64_t)dsz; });
            c.same("block_size()", ah.block_size(), [&] { return (uint64_t)block; });
        }
    }
    still_there();
}
PROP_BIG(E01)
PROP_LIFE(E01)

PROP_BODY(E02, "a MAC under a key that is not empty, of something fed, is checked") {
    int a = fixed_alg(c);
    size_t block = ref::block_size(a), dsz = ref::digest_size(a);
    Place<libpgfe::HMACEncoder> p(c);
    int f = (int)c.pick(4);
    Bytes k = hmac_key(c, block);
    if (f == 1) k = cut_at_nul(k);
    c.note("HMACEncoder %s, key %s as %s", hashes[a].name, show(k).c_str(), forms[f]);
    c.label("%s", hashes[a].name);
    c.label("key as %s", forms[f]);
    {
        pgfe_algorithm_choice ch = hashes[a].choice;
        In ik(c, f == 1 ? gen::str(k).c_str() : (const char *)k.data(), f == 1 ? k.size() + 1 : k.size());
        std::string s = gen::str(k);
        SequentialData sd = seq(k);
        c.op();
        if (f == 0) p.make(ch, ik.u8(), k.size());
        else if (f == 1) p.make(ch, ik.cs());
        else if (f == 2) p.make(ch, s);
        else p.make(ch, sd);
        ik.verify();
    }
    std::unique_ptr<libpgfe::HMACEncoder> other;
    libpgfe::HMACEncoder *cur = &*p;
    Bytes msg;
    bool done = false;
    const SequentialData *last = nullptr; // the last digest
    Bytes kept;
    auto still_there = [&] {
        if (last && bytes_of(*last) != kept) c.fail("a returned digest changed from %s to %s", show(kept).c_str(), show(bytes_of(*last)).c_str());
    };
    size_t steps = c.steps(2, 22);
    int resets = 0;
    for (size_t i = 0; i < steps; i++) {
        still_there();
        if (c.chance(1, 12) && move_away(c, p, other, cur)) last = nullptr;
        libpgfe::HMACEncoder &o = *cur;
        libpgfe::AbstractEncoder &ab = o;
        libpgfe::AbstractHashEncoder &ah = o;
        still_there();
        int what = c.weighted({8, 4, 3, 2});
        if (done && what < 2) what = 2;
        switch (what) {
        case 0: {
            Bytes d;
            int th = c.weighted({3, 2, 1});
            if (th == 0) d = feed(c, o, block, "");
            else if (th == 1) d = feed(c, ab, block, "interface ");
            else d = feed(c, ah, block, "hash interface ");
            msg.insert(msg.end(), d.begin(), d.end());
            break;
        }
        case 1: {
            bool base = c.chance(1, 3);
            c.note("%sdigest", base ? "interface " : "");
            c.op();
            const SequentialData *d = base ? ab.get_digest() : o.get_digest();
            if (!d) c.fail("get_digest returned null");
            Bytes got = bytes_of(*d);
            last = d;
            kept = got;
            c.same("MAC", got.data(), got.size(), [&] { return ref::hmac(a, k, msg); });
            done = true;
            if (resets) c.label("MAC after a reset");
            if (!k.empty() && !msg.empty()) c.nontrivial();
            break;
        }
        case 2: {
            bool base = c.chance(1, 3);
            c.note("%sreset", base ? "interface " : "");
            c.op();
            if (base) ab.reset();
            else o.reset();
            msg.clear();
            done = false;
            resets++;
            break;
        }
        default:
            c.same("algorithm()", o.algorithm(), [&] { return (uint64_t)hashes[a].choice; });
            c.same("digest_size()", o.digest_size(), [&] { return (uint64_t)dsz; });
            c.same("block_size()", ah.block_size(), [&] { return (uint64_t)block; });
        }
    }
    still_there();
}
PROP_BIG(E02)
PROP_LIFE(E02)
