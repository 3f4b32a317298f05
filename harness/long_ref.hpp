// Reference digests of prefixes of the long message
#pragma once
#include "long_pattern.hpp"
#include "long_table.h"

namespace longmsg {
inline Bytes unhex(const char *s) {
    Bytes b;
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (; s[0] && s[1]; s += 2) b.push_back((uint8_t)(v(s[0]) << 4 | v(s[1])));
    return b;
}
// State after the first `len` bytes of the long message (after the padded key, for an HMAC)
inline std::unique_ptr<ref::Hash> state(const Bytes &pat, int alg, bool hmac, uint64_t len) {
    auto h = ref::make(alg);
    int m = NMARKS - 1;
    while (m >= 0 && offset(alg, m) > len) m--;
    uint64_t at = 0;
    if (m >= 0) {
        h->load(unhex(LONG_TABLE[(hmac ? ref::A_COUNT : 0) + alg][m]));
        at = offset(alg, m);
    }
    else if (hmac) {
        Bytes k = padded_key(alg, 0x36);
        h->update(k.data(), k.size());
    }
    feed(*h, pat, at, len);
    return h;
}
inline Bytes mac(const Bytes &pat, int alg, uint64_t len) {
    Bytes i = state(pat, alg, true, len)->output(0);
    auto h = ref::make(alg);
    Bytes k = padded_key(alg, 0x5c);
    h->update(k.data(), k.size());
    h->update(i.data(), i.size());
    return h->output(0);
}
} // namespace longmsg
