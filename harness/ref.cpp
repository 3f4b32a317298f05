#include "ref.hpp"
#include "ref_tables.h"

#include <cstring>

namespace ref {

static const char *const ALPHA[] = {
    "0123456789ABCDEF", "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", "0123456789ABCDEFGHIJKLMNOPQRSTUV",
    "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/",
    "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"};

size_t digest_size(int a) {
    static const size_t t[] = {16, 20, 28, 32, 48, 64, 28, 32, 28, 32, 48, 64, 32, 32, 64, 64};
    return t[a];
}
size_t block_size(int a) {
    static const size_t t[] = {64, 64, 64, 64, 128, 128, 128, 128, 144, 136, 104, 72, 168, 168, 136, 136};
    return t[a];
}

template <class T> static inline T rotl(T x, int n) { return (T)((x << n) | (x >> (sizeof(T) * 8 - n))); }
template <class T> static inline T rotr(T x, int n) { return (T)((x >> n) | (x << (sizeof(T) * 8 - n))); }

// Merkle-Damgard with block size BS, length field of LF bytes
template <class D, size_t BS, size_t LF, bool LE> class MD : public Hash
{
protected:
    uint8_t buf[BS];
    size_t fill = 0;
    uint64_t total = 0;
    void pad() {
        buf[fill++] = 0x80;
        if (fill > BS - LF) {
            memset(buf + fill, 0, BS - fill);
            static_cast<D *>(this)->block(buf);
            fill = 0;
        }
        memset(buf + fill, 0, BS - fill);
        for (size_t i = 0; i < LF; i++) {
            size_t sh = 8 * (LE ? i : LF - 1 - i);
            buf[BS - LF + i] = sh < 64 ? (uint8_t)(total << 3 >> sh) : sh < 128 ? (uint8_t)(total >> 61 >> (sh - 64)) : 0;
        }
        static_cast<D *>(this)->block(buf);
        fill = 0;
    }

public:
    void update(const uint8_t *p, size_t n) override {
        total += n;
        while (n) {
            if (!fill && n >= BS) {
                static_cast<D *>(this)->block(p);
                p += BS;
                n -= BS;
                continue;
            }
            size_t k = BS - fill < n ? BS - fill : n;
            memcpy(buf + fill, p, k);
            fill += k;
            p += k;
            n -= k;
            if (fill == BS) {
                static_cast<D *>(this)->block(buf);
                fill = 0;
            }
        }
    }
    Bytes output(uint64_t) override {
        pad();
        return static_cast<D *>(this)->get();
    }
    void output_to(uint8_t *dst, uint64_t) override {
        Bytes b = output(0);
        memcpy(dst, b.data(), b.size());
    }
    std::unique_ptr<Hash> clone() const override {
        return std::unique_ptr<Hash>(new D(*static_cast<const D *>(this)));
    }
    Bytes save() const override {
        const D *d = static_cast<const D *>(this);
        Bytes b((const uint8_t *)d->h, (const uint8_t *)d->h + sizeof d->h);
        uint64_t t = (uint64_t)total;
        b.insert(b.end(), (const uint8_t *)&t, (const uint8_t *)&t + 8);
        return b;
    }
    void load(const Bytes &b) override {
        D *d = static_cast<D *>(this);
        uint64_t t;
        memcpy(d->h, b.data(), sizeof d->h);
        memcpy(&t, b.data() + sizeof d->h, 8);
        total = t;
        fill = 0;
    }
};

struct Md5 : MD<Md5, 64, 8, true>
{
    uint32_t h[4] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u};
    void block(const uint8_t *p) {
        static const int sh[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
        uint32_t w[16];
        for (int i = 0; i < 16; i++)
            w[i] = p[4 * i] | p[4 * i + 1] << 8 | p[4 * i + 2] << 16 | (uint32_t)p[4 * i + 3] << 24;
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
        for (int i = 0; i < 64; i++) {
            uint32_t f;
            int g;
            switch (i / 16) {
            case 0: f = (b & c) | (~b & d); g = i; break;
            case 1: f = (d & b) | (~d & c); g = (5 * i + 1) % 16; break;
            case 2: f = b ^ c ^ d; g = (3 * i + 5) % 16; break;
            default: f = c ^ (b | ~d); g = (7 * i) % 16; break;
            }
            uint32_t t = a + f + RT_MD5_K[i] + w[g];
            a = d; d = c; c = b;
            b += rotl(t, sh[i / 16][i % 4]);
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d;
    }
    Bytes get() {
        Bytes o;
        for (uint32_t x : h) for (int i = 0; i < 4; i++) o.push_back((uint8_t)(x >> (8 * i)));
        return o;
    }
};

struct Sha1 : MD<Sha1, 64, 8, false>
{
    uint32_t h[5] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u};
    void block(const uint8_t *p) {
        uint32_t w[80];
        for (int i = 0; i < 16; i++)
            w[i] = (uint32_t)p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
        for (int i = 16; i < 80; i++) w[i] = rotl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; i++) {
            uint32_t f, k;
            if (i < 20) f = (b & c) | (~b & d), k = 0x5a827999u;      // sqrt(2)
            else if (i < 40) f = b ^ c ^ d, k = 0x6ed9eba1u;          // sqrt(3)
            else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8f1bbcdcu; // sqrt(5)
            else f = b ^ c ^ d, k = 0xca62c1d6u;                      // sqrt(10)
            uint32_t t = rotl(a, 5) + f + e + k + w[i];
            e = d; d = c; c = rotl(b, 30); b = a; a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    Bytes get() {
        Bytes o;
        for (uint32_t x : h) for (int i = 3; i >= 0; i--) o.push_back((uint8_t)(x >> (8 * i)));
        return o;
    }
};

template <class W, size_t BS, size_t LF> struct Sha2 : MD<Sha2<W, BS, LF>, BS, LF, false>
{
    W h[8];
    size_t outlen;
    static W S0(W x) { return BS == 64 ? rotr(x, 2) ^ rotr(x, 13) ^ rotr(x, 22) : rotr(x, 28) ^ rotr(x, 34 % (8 * (int)sizeof(W))) ^ rotr(x, 39 % (8 * (int)sizeof(W))); }
    static W S1(W x) { return BS == 64 ? rotr(x, 6) ^ rotr(x, 11) ^ rotr(x, 25) : rotr(x, 14) ^ rotr(x, 18) ^ rotr(x, 41 % (8 * (int)sizeof(W))); }
    static W s0(W x) { return BS == 64 ? rotr(x, 7) ^ rotr(x, 18) ^ (x >> 3) : rotr(x, 1) ^ rotr(x, 8) ^ (x >> 7); }
    static W s1(W x) { return BS == 64 ? rotr(x, 17) ^ rotr(x, 19) ^ (x >> 10) : rotr(x, 19) ^ rotr(x, 61 % (8 * (int)sizeof(W))) ^ (x >> 6); }
    static W K(int i) { return sizeof(W) == 4 ? (W)RT_SHA256_K[i & 63] : (W)RT_SHA512_K[i]; }
    void block(const uint8_t *p) {
        const int R = sizeof(W) == 4 ? 64 : 80;
        W w[80];
        for (int i = 0; i < 16; i++) {
            w[i] = 0;
            for (size_t j = 0; j < sizeof(W); j++) w[i] = (W)(w[i] << 8) | p[i * sizeof(W) + j];
        }
        for (int i = 16; i < R; i++) w[i] = s1(w[i - 2]) + w[i - 7] + s0(w[i - 15]) + w[i - 16];
        W a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
        for (int i = 0; i < R; i++) {
            W t1 = hh + S1(e) + ((e & f) ^ (~e & g)) + K(i) + w[i];
            W t2 = S0(a) + ((a & b) ^ (a & c) ^ (b & c));
            hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
    }
    Bytes get() {
        Bytes o;
        for (W x : h) for (int i = (int)sizeof(W) - 1; i >= 0; i--) o.push_back((uint8_t)(x >> (8 * i)));
        o.resize(outlen);
        return o;
    }
    Sha2(const W iv[8], size_t out) : outlen(out) { memcpy(h, iv, sizeof h); }
};
typedef Sha2<uint32_t, 64, 8> Sha256;
typedef Sha2<uint64_t, 128, 16> Sha512;

static const uint64_t *sha512t_iv(int t) {
    static uint64_t iv[2][8];
    static bool done = [] {
        for (int k = 0; k < 2; k++) {
            uint64_t x[8];
            for (int i = 0; i < 8; i++) x[i] = RT_SHA512_IV[i] ^ 0xa5a5a5a5a5a5a5a5ULL;
            Sha512 s(x, 64);
            std::string name = k ? "SHA-512/256" : "SHA-512/224";
            s.update((const uint8_t *)name.data(), name.size());
            Bytes d = s.output(0);
            for (int i = 0; i < 8; i++) {
                iv[k][i] = 0;
                for (int j = 0; j < 8; j++) iv[k][i] = iv[k][i] << 8 | d[8 * i + j];
            }
        }
        return true;
    }();
    (void)done;
    return iv[t];
}

// Keccak sponge on bytes. The suffix is the domain bits followed by the first padding bit, as in FIPS 202 B.2
struct Keccak : Hash
{
    uint64_t a[25]; // lane (x, y) at x + 5y
    size_t rate, pos = 0, deflt;
    uint8_t suffix;
    Keccak(size_t r, uint8_t s, size_t d) : rate(r), deflt(d), suffix(s) { memset(a, 0, sizeof a); }
    void perm() {
        for (int r = 0; r < 24; r++) {
            uint64_t c[5], d[5], b[25];
            for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
            for (int x = 0; x < 5; x++) d[x] = c[(x + 4) % 5] ^ rotl(c[(x + 1) % 5], 1);
            for (int i = 0; i < 25; i++) a[i] ^= d[i % 5];
            static const Tab T;
            for (int i = 0; i < 25; i++) {
                uint64_t v = a[i];
                b[T.dst[i]] = T.rot[i] ? rotl(v, T.rot[i]) : v;
            }
            for (int y = 0; y < 25; y += 5)
                for (int x = 0; x < 5; x++) a[y + x] = b[y + x] ^ (~b[y + (x + 1) % 5] & b[y + (x + 2) % 5]);
            a[0] ^= RT_KECCAK_RC[r];
        }
    }
    struct Tab
    {
        int dst[25], rot[25];
        Tab() {
            for (int x = 0; x < 5; x++) // pi: (x, y) moves to (y, 2x + 3y)
                for (int y = 0; y < 5; y++) dst[x + 5 * y] = y + 5 * ((2 * x + 3 * y) % 5);
            rot[0] = 0;
            int x = 1, y = 0;
            for (int t = 0; t < 24; t++) {
                rot[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
                int ny = (2 * x + 3 * y) % 5;
                x = y;
                y = ny;
            }
        }
    };
    void xorb(size_t i, uint8_t v) { a[i / 8] ^= (uint64_t)v << (8 * (i % 8)); }
    void update(const uint8_t *p, size_t n) override {
        while (n) {
            if (!pos && n >= rate) {
                for (size_t i = 0; i < rate / 8; i++) {
                    uint64_t v = 0;
                    for (int j = 7; j >= 0; j--) v = v << 8 | p[8 * i + j];
                    a[i] ^= v;
                }
                perm();
                p += rate;
                n -= rate;
                continue;
            }
            xorb(pos++, *p++);
            n--;
            if (pos == rate) perm(), pos = 0;
        }
    }
    void output_to(uint8_t *dst, uint64_t bits) override {
        xorb(pos, suffix);
        xorb(rate - 1, 0x80);
        uint64_t n = (bits + 7) / 8;
        for (uint64_t i = 0; i < n;) {
            perm();
            for (size_t j = 0; j < rate && i < n; j++, i++) dst[i] = (uint8_t)(a[j / 8] >> (8 * (j % 8)));
        }
        if (bits % 8) dst[n - 1] &= (uint8_t)((1u << (bits % 8)) - 1);
    }
    Bytes output(uint64_t bits) override {
        if (deflt) bits = 8 * deflt; // fixed-length SHA-3
        Bytes o((bits + 7) / 8);
        if (o.empty()) return o;
        output_to(o.data(), bits);
        return o;
    }
    bool sq = false;
    size_t opos = 0;
    void read(uint8_t *dst, uint64_t n) override {
        if (!sq) {
            xorb(pos, suffix);
            xorb(rate - 1, 0x80);
            perm();
            sq = true;
            opos = 0;
        }
        for (uint64_t i = 0; i < n; i++) {
            if (opos == rate) perm(), opos = 0;
            dst[i] = (uint8_t)(a[opos / 8] >> (8 * (opos % 8)));
            opos++;
        }
    }
    std::unique_ptr<Hash> clone() const override { return std::unique_ptr<Hash>(new Keccak(*this)); }
    Bytes save() const override { return Bytes((const uint8_t *)a, (const uint8_t *)a + sizeof a); }
    void load(const Bytes &b) override {
        memcpy(a, b.data(), sizeof a);
        pos = 0;
    }
};

std::unique_ptr<Hash> make(int alg) {
    Hash *h = nullptr;
    switch (alg) {
    case A_MD5: h = new Md5; break;
    case A_SHA1: h = new Sha1; break;
    case A_SHA224: h = new Sha256(RT_SHA224_IV, 28); break;
    case A_SHA256: h = new Sha256(RT_SHA256_IV, 32); break;
    case A_SHA384: h = new Sha512(RT_SHA384_IV, 48); break;
    case A_SHA512: h = new Sha512(RT_SHA512_IV, 64); break;
    case A_SHA512_224: h = new Sha512(sha512t_iv(0), 28); break;
    case A_SHA512_256: h = new Sha512(sha512t_iv(1), 32); break;
    case A_SHA3_224: h = new Keccak(144, 0x06, 28); break;
    case A_SHA3_256: h = new Keccak(136, 0x06, 32); break;
    case A_SHA3_384: h = new Keccak(104, 0x06, 48); break;
    case A_SHA3_512: h = new Keccak(72, 0x06, 64); break;
    case A_RAWSHAKE128: h = new Keccak(168, 0x07, 0); break;
    case A_SHAKE128: h = new Keccak(168, 0x1f, 0); break;
    case A_RAWSHAKE256: h = new Keccak(136, 0x07, 0); break;
    case A_SHAKE256: h = new Keccak(136, 0x1f, 0); break;
    }
    return std::unique_ptr<Hash>(h);
}

Bytes hash(int alg, const uint8_t *p, size_t n, uint64_t bits) {
    auto h = make(alg);
    if (n) h->update(p, n);
    return h->output(bits);
}

Bytes hmac(int alg, const Bytes &key, const Bytes &msg) {
    size_t bs = block_size(alg);
    Bytes k = key.size() > bs ? hash(alg, key) : key;
    k.resize(bs, 0);
    Bytes in, out;
    for (uint8_t c : k) in.push_back(c ^ 0x36), out.push_back(c ^ 0x5c);
    in.insert(in.end(), msg.begin(), msg.end());
    Bytes d = hash(alg, in);
    out.insert(out.end(), d.begin(), d.end());
    return hash(alg, out);
}

uint32_t hotp(int alg, const Bytes &key, uint64_t counter, unsigned digits, bool *ok) {
    Bytes c(8);
    for (int i = 7; i >= 0; i--) c[i] = (uint8_t)counter, counter >>= 8;
    Bytes m = hmac(alg, key, c);
    size_t off = m.back() & 15;
    if (ok) *ok = off + 4 <= m.size();
    if (off + 4 > m.size()) return 0;
    uint32_t v = (uint32_t)(m[off] & 0x7f) << 24 | m[off + 1] << 16 | m[off + 2] << 8 | m[off + 3];
    if (digits >= 10) return v;
    uint32_t p = 1;
    while (digits--) p *= 10;
    return v % p;
}

std::string zero_pad(uint32_t v, unsigned digits) {
    std::string s;
    for (; v; v /= 10) s.insert(s.begin(), (char)('0' + v % 10));
    if (s.empty()) s = "0";
    while (s.size() < digits) s.insert(s.begin(), '0');
    return s;
}

unsigned base_bits(int b) { return b == B16 ? 4 : b <= B32HEX ? 5 : 6; }
unsigned base_chars(int b) { return b == B16 ? 2 : b <= B32HEX ? 8 : 4; }
unsigned base_bytes(int b) { return b == B16 ? 1 : b <= B32HEX ? 5 : 3; }
const char *base_alphabet(int b) { return ALPHA[b]; }

std::string encode(int b, const Bytes &x) {
    std::string s;
    unsigned bits = base_bits(b), acc = 0, have = 0;
    for (uint8_t c : x) {
        acc = acc << 8 | c;
        have += 8;
        while (have >= bits) {
            have -= bits;
            s += ALPHA[b][(acc >> have) & ((1u << bits) - 1)];
        }
        acc &= (1u << have) - 1;
    }
    if (have) s += ALPHA[b][(acc << (bits - have)) & ((1u << bits) - 1)];
    while (s.size() % base_chars(b)) s += '=';
    return s;
}

int base_value(int b, unsigned char c) {
    if (c == '=' && b != B16) return -2;
    if (c >= 'a' && c <= 'z' && b <= B32HEX) c = (unsigned char)(c - 'a' + 'A');
    if (b >= B64) {
        if (c == '-') c = '+';
        if (c == '_') c = '/';
        b = B64;
    }
    const char *p = c ? strchr(ALPHA[b], c) : nullptr;
    return p ? (int)(p - ALPHA[b]) : -1;
}

Blowfish::Blowfish(const Bytes &key) {
    memcpy(P, RT_PI, sizeof P);
    memcpy(S, RT_PI + 18, sizeof S);
    size_t j = 0;
    for (uint32_t &p : P) {
        uint32_t d = 0;
        for (int k = 0; k < 4; k++, j++) d = d << 8 | key[j % key.size()];
        p ^= d;
    }
    uint32_t l = 0, r = 0;
    for (int i = 0; i < 18; i += 2) enc(l, r), P[i] = l, P[i + 1] = r;
    for (auto &row : S)
        for (int i = 0; i < 256; i += 2) enc(l, r), row[i] = l, row[i + 1] = r;
}
uint32_t Blowfish::F(uint32_t x) const {
    return ((S[0][x >> 24] + S[1][x >> 16 & 255]) ^ S[2][x >> 8 & 255]) + S[3][x & 255];
}
void Blowfish::enc(uint32_t &l, uint32_t &r) const {
    for (int i = 0; i < 16; i += 2) {
        l ^= P[i];
        r ^= F(l);
        r ^= P[i + 1];
        l ^= F(r);
    }
    l ^= P[16];
    r ^= P[17];
    std::swap(l, r);
}
void Blowfish::dec(uint32_t &l, uint32_t &r) const {
    for (int i = 16; i > 0; i -= 2) {
        l ^= P[i + 1];
        r ^= F(l);
        r ^= P[i];
        l ^= F(r);
    }
    l ^= P[1];
    r ^= P[0];
    std::swap(l, r);
}
Bytes Blowfish::buffer(const Bytes &in, bool encrypt) const {
    Bytes o = in;
    o.resize((in.size() + 7) / 8 * 8, 0);
    for (size_t i = 0; i < o.size(); i += 8) {
        uint32_t w[2];
        for (int k = 0; k < 2; k++)
            w[k] = (uint32_t)o[i + 4 * k] << 24 | o[i + 4 * k + 1] << 16 | o[i + 4 * k + 2] << 8 | o[i + 4 * k + 3];
        encrypt ? enc(w[0], w[1]) : dec(w[0], w[1]);
        for (int k = 0; k < 8; k++) o[i + k] = (uint8_t)(w[k / 4] >> (24 - 8 * (k % 4)));
    }
    return o;
}

std::string hex(const uint8_t *p, size_t n) {
    static const char d[] = "0123456789abcdef";
    std::string s;
    s.reserve(2 * n);
    for (size_t i = 0; i < n; i++) s += d[p[i] >> 4], s += d[p[i] & 15];
    return s;
}
static bool isx(char c) { return c == 'x' || c == 'X'; }
static int hexv(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
std::string hex_clean(const std::string &s) {
    std::string o;
    size_t i = s.size() >= 2 && isx(s[1]) ? 2 : 0;
    for (; i < s.size(); i++)
        if (hexv(s[i]) >= 0) o += s[i];
    return o;
}
Bytes hex_parse(const std::string &s) {
    std::string c = hex_clean(s);
    if (c.size() % 2) c.insert(c.begin(), '0');
    Bytes b;
    for (size_t i = 0; i < c.size(); i += 2) b.push_back((uint8_t)(hexv(c[i]) * 16 + hexv(c[i + 1])));
    return b;
}
} // namespace ref
