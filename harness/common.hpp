// Generators shared by the checks
#pragma once
#include "api.hpp"
#include "libpgfe/sequential_data.hpp"

namespace gen {
using namespace pbt;
// Length of a message, relative to the block of an algorithm
inline size_t msg_len(Case &c, size_t block) {
    if (c.deep) return c.len(block, 5000);
    switch (c.weighted({1880, 90, 20, 8, 2})) {
    case 0: return c.len(block, 5000);
    case 1: return c.len(block, 20000);
    case 2: return c.len(block, 140000);
    case 3: return 8192 + c.pick(2 * block + 2) - block; // the bit length needs one byte more
    default: return (2u << 20) + c.pick(2 * block + 2) - block;
    }
}
inline const char *len_class(size_t n, size_t block) {
    size_t r = n % block;
    if (!n) return "empty";
    if (n < block) return r + 17 >= block ? "below a block, padding overflows" : "below a block";
    if (!r) return "whole blocks";
    if (r + 17 >= block) return "blocks + long rest";
    return "blocks + rest";
}
// Splits n into parts of any sizes, also empty ones
inline std::vector<size_t> split(Case &c, size_t n, size_t block, size_t maxparts) {
    std::vector<size_t> v;
    size_t left = n;
    if (c.deep == Case::LIFE && maxparts > c.life) maxparts = c.life;
    while (v.size() + 1 < maxparts) {
        if (left == 0 && c.deep != Case::LIFE && !c.chance(1, 4)) break;
        size_t k;
        switch (c.deep == Case::LIFE ? c.weighted({0, 30, 1, 0, 10}) : c.weighted({4, 3, 3, 2, 2})) {
        case 0: k = c.pick(left + 1); break;
        case 1: k = c.pick(6); break;
        case 2: k = block * (1 + c.pick(3)) + c.pick(5); k = k > 2 ? k - 2 : k; break;
        case 3: k = left > 3 ? left - c.pick(4) : left; break;
        default: k = 0;
        }
        if (k > left) k = left;
        v.push_back(k);
        left -= k;
    }
    v.push_back(left);
    return v;
}
// Output lengths of extendable-output functions, in bits
inline uint64_t xof_bits(Case &c, size_t rate, bool bytes_only = false) {
    uint64_t n;
    if (c.deep == Case::BIG && (n = c.big(rate))) return bytes_only ? 8 * n : 8 * n + c.pick(15) - 7;
    switch (c.weighted({6, 6, 6, 3, 2, 1})) {
    case 0: n = c.pick(70); break;
    case 1: n = 8 * c.pick(2 * rate + 2); break;
    case 2: { // around multiples of the rate
        n = 8 * rate * (1 + c.pick(6));
        uint64_t d = c.pick(19);
        n = n + d - 9;
        break;
    }
    case 3: n = c.pick(8 * 3 * rate); break;
    case 4: n = c.pick(40000); break;
    default: {
        static const uint64_t t[] = {32768, 65536, 131072, 524288, 262144, 65536 * 8};
        n = t[c.pick(6)] + c.pick(33) - 16;
    }
    }
    if (bytes_only) n &= ~7ULL;
    return n;
}
inline size_t bits_to_bytes(uint64_t b) { return (size_t)((b + 7) / 8); }
inline int xof_alg(Case &c) { return ref::A_FIXED + (int)c.pick(ref::A_COUNT - ref::A_FIXED); }
inline int fixed_alg(Case &c) { return (int)c.pick(ref::A_FIXED); }
inline int any_alg(Case &c) { return (int)c.pick(ref::A_COUNT); }
// Key of an HMAC
inline Bytes hmac_key(Case &c, size_t block) {
    size_t n;
    if (c.deep == Case::BIG && (n = c.big(block))) return c.bytes(n);
    switch (c.weighted({3, 8, 6, 3, 1})) {
    case 0: n = c.pick(40); break;
    case 1: n = block + c.pick(7) - 3; break; // around the block size
    case 2: n = c.pick(3 * block); break;
    case 3: n = c.len(block, 3000); break;
    default: n = c.len(block, 140000);
    }
    return c.bytes(n);
}
// Sometimes a context was used for something else before
inline void used_before(Case &c, const api::HashApi &h, int a, api::Ctx &x, unsigned one_in = 4) {
    if (!c.chance(1, one_in)) return;
    size_t block = ref::block_size(a);
    c.note("the context was used before");
    c.label("context used before");
    c.op();
    h.init(x.p());
    int n = 1 + (int)c.pick(3);
    while (n--) {
        Bytes d = c.bytes(c.pick(3) ? c.pick(2 * block + 2) : c.pick(9));
        c.op();
        h.update(x.p(), d.data(), d.size());
    }
    n = ref::is_xof(a) ? (int)c.pick(3) : (int)c.pick(2);
    while (n--) {
        uint64_t bits = ref::is_xof(a) ? xof_bits(c, block) : 0;
        if (bits % 8) n = 0; // it squeezes no further
        Bytes o(ref::is_xof(a) ? bits_to_bytes(bits) + 1 : ref::digest_size(a));
        c.op();
        h.digest(x.p(), o.data(), bits);
    }
}
inline libpgfe::SequentialData seq(const Bytes &b) { return libpgfe::SequentialData((const pgfe_encode_t *)b.data(), b.size()); }
inline std::string str(const Bytes &b) { return std::string((const char *)b.data(), b.size()); }
inline Bytes bytes_of(const std::string &s) { return Bytes(s.begin(), s.end()); }
inline Bytes bytes_of(const libpgfe::SequentialData &s) { return Bytes(s.begin(), s.end()); }
// What a C string of the bytes holds
inline Bytes cut_at_nul(const Bytes &b) {
    Bytes r;
    for (uint8_t x : b) {
        if (!x) break;
        r.push_back(x);
    }
    return r;
}
// Makes some blocks equal to the ones before, or to their encryption or decryption
inline void relate_blocks(Case &c, Bytes &t, const ref::Blowfish &r) {
    for (size_t i = 8; i + 8 <= t.size(); i += 8) {
        int how = c.weighted({3, 2, 2, 2});
        if (!how) continue;
        Bytes b(t.begin() + (long)i - 8, t.begin() + (long)i);
        if (how > 1) b = r.buffer(b, how == 2);
        std::copy(b.begin(), b.end(), t.begin() + (long)i);
    }
    c.label("related blocks");
}
} // namespace gen
