// Uniform access to the C functions of libpgfe
#pragma once
#include <cstdio>
#include <memory>

#include "engine.hpp"
#include "libpgfe/base_encoding/base16.h"
#include "libpgfe/base_encoding/base32.h"
#include "libpgfe/base_encoding/base64.h"
#include "libpgfe/hashes.h"
#include "libpgfe/hmac/hmac.h"

namespace api {
using namespace pbt;
struct Part
{
    const uint8_t *p;
    size_t n;
};
struct HashApi
{
    const char *name;
    pgfe_algorithm_choice choice;
    size_t ctx_size;
    void (*init)(void *);
    void (*update)(void *, const uint8_t *, size_t);
    void (*digest)(void *, uint8_t *, size_t bits); // bits: XOFs only
    void (*encode)(const uint8_t *, size_t, uint8_t *, size_t bits);
    void (*encode_f)(FILE *, uint8_t *, size_t bits);
    void (*encode_default)(const uint8_t *, uint8_t *, size_t bits);
    void (*encode_multi)(uint8_t *, size_t bits, const Part *, size_t n); // n = parts_fitting(n)
};
const size_t MAXPARTS = 300;
size_t parts_fitting(size_t n); // the least possible number of parts that is not below n
extern const HashApi hashes[ref::A_COUNT];

struct HmacApi
{
    const char *name;
    pgfe_algorithm_choice choice;
    size_t ctx_size;
    void (*init)(void *);
    void (*set_key)(void *, const uint8_t *, size_t);
    void (*update)(void *, const uint8_t *, size_t);
    void (*digest)(void *, uint8_t *);
    void (*oneshot)(const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *);
};
extern const HmacApi hmacs[ref::A_FIXED];

struct BaseApi
{
    const char *name;
    size_t (*enc)(const uint8_t *, size_t, char *);
    size_t (*dec)(const char *, uint8_t *);
};
extern const BaseApi bases[ref::B_COUNT];

// Context storage with prior content; nothing around it may change
class Ctx
{
    Out o;
    size_t n;

public:
    Ctx(Case &c, size_t n_) : o(c, n_, 0, true), n(n_) {}
    void *p() { return o.u8(); }
    void copy_from(Ctx &s) { memcpy(p(), s.p(), n); }
    void check() { o.check(); }
};
inline int harness_alg(pgfe_algorithm_choice a) {
    for (int i = 0; i < ref::A_COUNT; i++) if (hashes[i].choice == a) return i;
    return -1;
}
} // namespace api
