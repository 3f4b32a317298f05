// The very long message: a pattern of 257 pages of non-zero bytes, repeated without end. H05 knows reference midstates of it.
#pragma once
#include "ref.hpp"
#include <cstring>

namespace longmsg {
using ref::Bytes;
const size_t PERIOD = 257 * 4096;
const int NMARKS = 5;
const uint64_t MARKS[NMARKS] = {1ULL << 29, 1ULL << 30, 1ULL << 31, 3ULL << 30, 1ULL << 32};
const uint64_t BEFORE = 128 << 10; // a midstate is this far before its mark, or up to a block more
inline Bytes pattern() {
    Bytes b(PERIOD);
    uint64_t x = 0x2545F4914F6CDD1DULL;
    for (auto &v : b) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v = (uint8_t)(1 + (x >> 20) % 255);
    }
    return b;
}
inline uint64_t offset(int alg, int mark) {
    uint64_t o = MARKS[mark] - BEFORE;
    return o - o % ref::block_size(alg);
}
// Key of the long HMACs: shorter than a block for even algorithms, longer for odd ones
inline Bytes key(int alg) {
    Bytes k(alg & 1 ? ref::block_size(alg) + 9 : 21 + alg);
    for (size_t i = 0; i < k.size(); i++) k[i] = (uint8_t)(i * 7 + (size_t)alg * 13);
    return k;
}
inline Bytes padded_key(int alg, uint8_t pad) {
    Bytes k = key(alg);
    if (k.size() > ref::block_size(alg)) k = ref::hash(alg, k);
    k.resize(ref::block_size(alg));
    for (auto &x : k) x ^= pad;
    return k;
}
// Feeds [from, to) of the long message
inline void feed(ref::Hash &h, const Bytes &pat, uint64_t from, uint64_t to) {
    while (from < to) {
        uint64_t o = from % PERIOD, n = PERIOD - o < to - from ? PERIOD - o : to - from;
        h.update(pat.data() + o, (size_t)n);
        from += n;
    }
}
} // namespace longmsg
