// Independent reference implementations: the oracles of the checks.
// Written from the standards; shares no code or table with libpgfe.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

namespace ref {
typedef std::vector<uint8_t> Bytes;

// Algorithm numbers of the harness (not libpgfe's enumeration values)
enum Alg {
    A_MD5, A_SHA1, A_SHA224, A_SHA256, A_SHA384, A_SHA512, A_SHA512_224, A_SHA512_256,
    A_SHA3_224, A_SHA3_256, A_SHA3_384, A_SHA3_512, // 12 fixed hashes up to here
    A_RAWSHAKE128, A_SHAKE128, A_RAWSHAKE256, A_SHAKE256, A_COUNT
};
const int A_FIXED = 12;
inline bool is_xof(int a) { return a >= A_FIXED; }
size_t digest_size(int a); // bytes; default output size for the XOFs
size_t block_size(int a);

// Streaming hash; for the XOFs output() may be called with any number of bits once
class Hash
{
public:
    virtual ~Hash() {}
    virtual void update(const uint8_t *p, size_t n) = 0;
    virtual Bytes output(uint64_t bits = 0) = 0; // finishes; bits used by the XOFs only
    virtual void output_to(uint8_t *dst, uint64_t bits) = 0;
    virtual void read(uint8_t *, uint64_t) {} // XOFs: the next bytes of the output stream; may be repeated
    virtual std::unique_ptr<Hash> clone() const = 0;
    virtual Bytes save() const = 0; // midstate after a whole number of blocks
    virtual void load(const Bytes &) = 0;
};
std::unique_ptr<Hash> make(int alg);
Bytes hash(int alg, const uint8_t *p, size_t n, uint64_t bits = 0);
inline Bytes hash(int alg, const Bytes &b, uint64_t bits = 0) { return hash(alg, b.data(), b.size(), bits); }
Bytes hmac(int alg, const Bytes &key, const Bytes &msg);
// RFC 4226; digits >= 10 give the 31-bit value. *ok = truncation stays inside the MAC
uint32_t hotp(int alg, const Bytes &key, uint64_t counter, unsigned digits, bool *ok = nullptr);
std::string zero_pad(uint32_t v, unsigned digits);

enum Base { B16, B32, B32HEX, B64, B64URL, B_COUNT };
unsigned base_bits(int b);  // bits per character
unsigned base_chars(int b); // characters per unit
unsigned base_bytes(int b); // bytes per unit
const char *base_alphabet(int b);
std::string encode(int b, const Bytes &x);
// value of a character for the *decoder* of base b (tolerant classes), -1 if ignored, -2 for '=' padding
int base_value(int b, unsigned char c);

struct Blowfish
{
    uint32_t P[18], S[4][256];
    explicit Blowfish(const Bytes &key);
    void enc(uint32_t &l, uint32_t &r) const;
    void dec(uint32_t &l, uint32_t &r) const;
    Bytes buffer(const Bytes &in, bool encrypt) const;
    uint32_t F(uint32_t x) const;
};

std::string hex(const uint8_t *p, size_t n);
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
std::string hex_clean(const std::string &s);      // model of "cleaning"
Bytes hex_parse(const std::string &s);            // model of reading hexadecimal text
} // namespace ref
