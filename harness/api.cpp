#include "api.hpp"
#include <utility>

namespace api {
namespace {
// The multi-part functions take their parts as variable arguments: one instance for every number of them
template <size_t J> auto arg(const Part *v) {
    if constexpr (J % 2) return v[J / 2].n;
    else return v[J / 2].p;
}
typedef void (*FixMulti)(pgfe_encode_t *, size_t, ...);
typedef void (*XofMulti)(pgfe_encode_t *, size_t, size_t, ...);
template <size_t... J> void call(FixMulti f, uint8_t *o, size_t, const Part *v, std::index_sequence<J...>) { f(o, sizeof...(J) / 2, arg<J>(v)...); }
template <size_t... J> void call(XofMulti f, uint8_t *o, size_t bits, const Part *v, std::index_sequence<J...>) { f(o, bits, sizeof...(J) / 2, arg<J>(v)...); }
template <class F, size_t N> void fixed_number(F f, uint8_t *o, size_t bits, const Part *v) { call(f, o, bits, v, std::make_index_sequence<2 * N>()); }
template <class F, size_t... N> void multi_small(F f, uint8_t *o, size_t bits, const Part *v, size_t n, std::index_sequence<N...>) {
    static void (*const t[])(F, uint8_t *, size_t, const Part *) = {fixed_number<F, N>...};
    t[n](f, o, bits, v);
}
template <class F> void multi(F f, uint8_t *o, size_t bits, const Part *v, size_t n) {
    if (n <= 40) multi_small(f, o, bits, v, n, std::make_index_sequence<41>());
    else if (n == 64) fixed_number<F, 64>(f, o, bits, v);
    else if (n == 128) fixed_number<F, 128>(f, o, bits, v);
    else if (n == 257) fixed_number<F, 257>(f, o, bits, v);
    else if (n == 300) fixed_number<F, 300>(f, o, bits, v);
    else abort();
}
} // namespace
size_t parts_fitting(size_t n) {
    if (n <= 40) return n;
    for (size_t k : {64, 128, 257, 300}) if (n <= k) return k;
    abort();
}

#define FIX(NAME, CHOICE)                                                                                              \
    {#NAME, CHOICE, sizeof(struct pgfe_##NAME##_ctx),                                                                  \
     [](void *c) { pgfe_##NAME##_init((struct pgfe_##NAME##_ctx *)c); },                                               \
     [](void *c, const uint8_t *p, size_t n) { pgfe_##NAME##_update((struct pgfe_##NAME##_ctx *)c, p, n); },           \
     [](void *c, uint8_t *o, size_t) { pgfe_##NAME##_digest((struct pgfe_##NAME##_ctx *)c, o); },                      \
     [](const uint8_t *p, size_t n, uint8_t *o, size_t) { pgfe_##NAME##_encode(p, n, o); },                            \
     [](FILE *f, uint8_t *o, size_t) { pgfe_##NAME##_encode_f(f, o); },                                                \
     [](const uint8_t *p, uint8_t *o, size_t) { pgfe_##NAME##_encode_default(p, o); },                                 \
     [](uint8_t *o, size_t, const Part *v, size_t n) { multi<FixMulti>(pgfe_##NAME##_encode_multiple, o, 0, v, n); }}
#define XOF(NAME, CHOICE)                                                                                              \
    {#NAME, CHOICE, sizeof(struct pgfe_##NAME##_ctx),                                                                  \
     [](void *c) { pgfe_##NAME##_init((struct pgfe_##NAME##_ctx *)c); },                                               \
     [](void *c, const uint8_t *p, size_t n) { pgfe_##NAME##_update((struct pgfe_##NAME##_ctx *)c, p, n); },           \
     [](void *c, uint8_t *o, size_t b) { pgfe_##NAME##_digest((struct pgfe_##NAME##_ctx *)c, o, b); },                 \
     [](const uint8_t *p, size_t n, uint8_t *o, size_t b) { pgfe_##NAME##_encode(p, n, o, b); },                       \
     [](FILE *f, uint8_t *o, size_t b) { pgfe_##NAME##_encode_f(f, o, b); },                                           \
     [](const uint8_t *p, uint8_t *o, size_t b) { pgfe_##NAME##_encode_default(p, o, b); },                            \
     [](uint8_t *o, size_t b, const Part *v, size_t n) { multi<XofMulti>(pgfe_##NAME##_encode_multiple, o, b, v, n); }}

const HashApi hashes[ref::A_COUNT] = {
    FIX(md5, MD5), FIX(sha1, SHA1), FIX(sha224, SHA224), FIX(sha256, SHA256), FIX(sha384, SHA384), FIX(sha512, SHA512),
    FIX(sha512_224, SHA512_224), FIX(sha512_256, SHA512_256), FIX(sha3_224, SHA3_224), FIX(sha3_256, SHA3_256),
    FIX(sha3_384, SHA3_384), FIX(sha3_512, SHA3_512), XOF(rawshake128, RawSHAKE128), XOF(shake128, SHAKE128),
    XOF(rawshake256, RawSHAKE256), XOF(shake256, SHAKE256)};

#define MAC(NAME, CHOICE)                                                                                              \
    {#NAME, CHOICE, sizeof(struct pgfe_hmac_##NAME##_ctx),                                                             \
     [](void *c) { pgfe_hmac_##NAME##_init((struct pgfe_hmac_##NAME##_ctx *)c); },                                     \
     [](void *c, const uint8_t *p, size_t n) { pgfe_hmac_##NAME##_set_key((struct pgfe_hmac_##NAME##_ctx *)c, p, n); },\
     [](void *c, const uint8_t *p, size_t n) { pgfe_hmac_##NAME##_update((struct pgfe_hmac_##NAME##_ctx *)c, p, n); }, \
     [](void *c, uint8_t *o) { pgfe_hmac_##NAME##_digest((struct pgfe_hmac_##NAME##_ctx *)c, o); },                    \
     [](const uint8_t *k, size_t kn, const uint8_t *p, size_t n, uint8_t *o) { pgfe_hmac_##NAME(k, kn, p, n, o); }}
const HmacApi hmacs[ref::A_FIXED] = {
    MAC(md5, MD5), MAC(sha1, SHA1), MAC(sha224, SHA224), MAC(sha256, SHA256), MAC(sha384, SHA384), MAC(sha512, SHA512),
    MAC(sha512_224, SHA512_224), MAC(sha512_256, SHA512_256), MAC(sha3_224, SHA3_224), MAC(sha3_256, SHA3_256),
    MAC(sha3_384, SHA3_384), MAC(sha3_512, SHA3_512)};

const BaseApi bases[ref::B_COUNT] = {
    {"base16", pgfe_encode_base16, pgfe_decode_base16},
    {"base32", pgfe_encode_base32, pgfe_decode_base32},
    {"base32hex", pgfe_encode_base32hex, pgfe_decode_base32hex},
    {"base64", pgfe_encode_base64, pgfe_decode_base64},
    {"base64url", pgfe_encode_base64_url, pgfe_decode_base64}};
} // namespace api
