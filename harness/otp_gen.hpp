// Generators of the one-time-password checks
#pragma once
#include <ctime>
#include <string>

#include "common.hpp"
namespace gen {
// Counters for which the truncated HMAC-SHA-1 of the secret below has a value that is hardly met by chance: each is the
// first of its kind, found by trying all counters in turn
struct OtpEdge
{
    uint32_t value;
    uint64_t counter;
};
const OtpEdge otp_edges[] = {
    {0u, 1279789225u},
    {1u, 5075946707u},
    {9u, 3749813429u},
    {10u, 1401289636u},
    {99u, 680269477u},
    {100u, 1894643373u},
    {999u, 2166588032u},
    {1000u, 7550807708u},
    {9999u, 232331512u},
    {10000u, 31267507u},
    {65535u, 2579030004u},
    {65536u, 2342280864u},
    {99999u, 567347005u},
    {100000u, 2110248059u},
    {999999u, 77783649u},
    {1000000u, 2765999979u},
    {9999999u, 4551293750u},
    {10000000u, 547039002u},
    {99999999u, 2272090426u},
    {100000000u, 5462441527u},
    {999999999u, 1268552210u},
    {1000000000u, 2046660330u},
    {1073741823u, 812992217u},
    {1073741824u, 574399708u},
    {1999999999u, 2097673665u},
    {2000000000u, 3138566223u},
    {2147483646u, 3225642808u},
    {2147483647u, 1830010531u},
};
const size_t otp_edge_count = sizeof otp_edges / sizeof *otp_edges;
const char otp_edge_secret[] = "12345678901234567890";
inline int otp_alg(Case &c) {
    return c.chance(1, 2) ? ref::A_SHA1 : c.chance(1, 24) ? ref::A_MD5 : 1 + (int)c.pick(ref::A_FIXED - 1);
}
// RFC 4226 defines no code when the truncation would leave the MAC, as happens with MD5 (see known_findings.txt)
inline void otp_defined(int a, const Bytes &k, uint64_t counter) {
    bool ok = true;
    if (a == ref::A_MD5) ref::hotp(a, k, counter, 6, &ok);
    if (!ok) throw Discard();
}
inline Bytes otp_secret(Case &c) {
    size_t n;
    if (c.deep == Case::BIG && (n = c.big(64))) return c.bytes(n);
    if (c.deep != Case::LIFE && c.chance(1, 400)) return c.bytes(65000 + c.pick(6000));
    switch (c.weighted({4, 4, 2, 1})) {
    case 0: n = 20; break;
    case 1: n = c.pick(70); break;
    case 2: n = c.len(64, 400); break;
    default: return Bytes(otp_edge_secret, otp_edge_secret + 20);
    }
    return c.bytes(n);
}
inline uint64_t otp_counter(Case &c) { return c.chance(1, 6) ? otp_edges[c.pick(otp_edge_count)].counter : c.weird64(); }
// An algorithm, secret, counter and digit count that meet at a rare value
inline bool otp_edge(Case &c, int &a, Bytes &k, uint64_t &counter, unsigned &digits) {
    if (!c.chance(1, 8)) return false;
    const OtpEdge &e = otp_edges[c.pick(otp_edge_count)];
    a = ref::A_SHA1;
    k.assign(otp_edge_secret, otp_edge_secret + 20);
    counter = e.counter;
    digits = (unsigned)std::to_string(e.value).size() + (unsigned)c.pick(3);
    if (digits > 1) digits--;
    c.label("rare value");
    return true;
}
inline unsigned otp_digits(Case &c) {
    switch (c.weighted({6, 6, 2})) {
    case 0: return 6;
    case 1: return 1 + (unsigned)c.pick(12);
    default: return 1 + (unsigned)c.pick(255);
    }
}
inline uint32_t otp_interval(Case &c) { // 1 to 2^31 - 1
    uint64_t v;
    switch (c.weighted({4, 4, 3})) {
    case 0: v = 30; break;
    case 1: v = 1 + c.pick(120); break;
    default: v = c.weird64() & 0x7fffffff;
    }
    return v ? (uint32_t)v : 1;
}
const int64_t TIME_MAX = sizeof(time_t) == 4 ? INT32_MAX : INT64_MAX; // also of a time that has passed
inline int64_t otp_now(Case &c, uint32_t interval) {
    uint64_t v;
    switch (c.weighted({3, 3, 3, 2, 1, 2})) {
    case 5: // at most 2^33 and less than 2^31
        v = otp_edges[c.pick(otp_edge_count)].counter * (interval & 0x0fffffff) + c.pick(interval);
        break;
    case 0: v = 1000000000 + c.pick(1000000000); break;
    case 1: v = (uint64_t)interval * c.pick(2000000) + c.pick(5); v = v > 2 ? v - 2 : v; break; // around the edge of a window
    case 2: v = (1ULL << (28 + c.pick(14))) + c.pick(2001); v -= 1000; break;
    case 3: v = c.weird64() & 0xffffffffffULL; break;
    default: v = c.weird64() & 0xffffffffffffffULL;
    }
    return (int64_t)v & TIME_MAX;
}
inline int64_t otp_start(Case &c, int64_t now) { // not after now
    switch (c.weighted({4, 3, 2, 2})) {
    case 0: return 0;
    case 1: return (int64_t)c.pick((uint64_t)now + 1);
    case 2: return now - (int64_t)(c.pick(5000) % ((uint64_t)now + 1));
    default: {
        int64_t t = -(int64_t)(c.weird64() & 0xffffffffffULL);
        return TIME_MAX == INT64_MAX || now - t <= TIME_MAX ? t : now - TIME_MAX;
    }
    }
}
} // namespace gen
