// H05: very long messages and outputs
#include "common.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/fishes/blowfish.h"
#include "libpgfe/otp/hotp.h"
#include "long_ref.hpp"
#include <cerrno>
#include <sys/mman.h>
#include <unistd.h>
using namespace api;
using namespace gen;

namespace {
const size_t PGSZ = 4096, CHUNK = 8 * longmsg::PERIOD;
const Bytes &pat() {
    static const Bytes p = longmsg::pattern();
    return p;
}
const uint64_t WINDOW = (1ULL << 30) + (1 << 21);
// The first n bytes of the long message, mapped read-only; a NUL follows if wanted
class Mapped
{
    uint8_t *base = nullptr;
    size_t total;

public:
    Mapped(uint64_t n, bool nul) {
        static int fd = -1;
        if (fd < 0) {
            fd = memfd_create("long", 0);
            for (size_t i = 0; i < CHUNK / pat().size(); i++)
                for (size_t o = 0; o < pat().size();) {
                    ssize_t w = write(fd, pat().data() + o, pat().size() - o);
                    if (w <= 0) throw std::bad_alloc();
                    o += (size_t)w;
                }
        }
        if (sizeof(size_t) == 4 && n > WINDOW) n = WINDOW; // the rest is seen by at() only
        total = (n + 1 + PGSZ - 1) / PGSZ * PGSZ;
        base = (uint8_t *)mmap(nullptr, total + PGSZ, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) throw std::bad_alloc();
        for (size_t o = 0; o < total; o += CHUNK) {
            size_t k = total - o < CHUNK ? total - o : CHUNK;
            if (mmap(base + o, k, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) throw std::bad_alloc();
        }
        if (nul) {
            size_t last = n / PGSZ * PGSZ;
            uint8_t page[PGSZ];
            memcpy(page, base + last, PGSZ);
            if (mmap(base + last, PGSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) throw std::bad_alloc();
            memcpy(base + last, page, PGSZ);
            base[n] = 0;
        }
    }
    Mapped(const Mapped &) = delete;
    ~Mapped() { munmap(base, total + PGSZ); }
    const uint8_t *p() const { return base; }
    const uint8_t *at(uint64_t o) const { return base + (sizeof(size_t) == 4 ? o % longmsg::PERIOD : o); }
};
uint64_t long_len(Case &c, int mark) {
    switch (c.weighted({2, 3, 2, 1})) {
    case 0: return longmsg::MARKS[mark] + c.pick(300);
    case 1: return longmsg::MARKS[mark] + c.pick(131072);
    case 2: return longmsg::MARKS[mark] - 9 + c.pick(19);
    default: return longmsg::MARKS[mark] - c.pick(65536);
    }
}
Bytes expected(int a, uint64_t n, uint64_t bits) {
    auto h = longmsg::state(pat(), a, false, n);
    return h->output(bits);
}
// Calls f(offset, size) over pieces of [0, n)
template <class F> void pieces(Case &c, uint64_t n, F f) {
    uint64_t at = 0;
    // the sizes vary around a base that keeps the number of calls small
    uint64_t base = 1ULL << c.range(20, 28);
    while (at < n) {
        uint64_t k;
        switch (c.weighted({6, 2, 1, 1})) {
        case 0: k = base + c.pick(4096); break;
        case 1: k = 1 + c.pick(300); break;
        case 2: k = 1 + c.pick(70000); break;
        default: k = 2 * base; break;
        }
        // stop just before, at and after each mark
        for (int m = 0; m < longmsg::NMARKS; m++) {
            uint64_t M = longmsg::MARKS[m];
            if (at + 600 < M && at + k > M - 600 && c.chance(2, 3)) k = M - c.pick(300) - at;
        }
        if (k > n - at) k = n - at;
        f(at, k);
        at += k;
    }
}
struct Cookie
{
    uint64_t at, n;
};
ssize_t cookie_read(void *v, char *b, size_t k) {
    Cookie *s = (Cookie *)v;
    size_t got = 0;
    while (got < k && s->at < s->n) {
        size_t o = s->at % pat().size(), m = pat().size() - o;
        if (m > k - got) m = k - got;
        if (m > s->n - s->at) m = (size_t)(s->n - s->at);
        memcpy(b + got, pat().data() + o, m);
        got += m;
        s->at += m;
    }
    return (ssize_t)got;
}

const char *const mark_names[] = {"2^29", "2^30", "2^31", "3*2^30", "2^32"};
void whole_message(Case &c, int a, int mark, int form = -1) { // one call
    const HashApi &h = hashes[a];
    uint64_t n = long_len(c, mark), bits = ref::is_xof(a) ? 512 : 0;
    size_t outn = ref::is_xof(a) ? 64 : ref::digest_size(a);
    int any = c.weighted({3, 4, 3, 2, 2});
    if (form < 0) form = any;
    static const char *const names[] = {"encode", "context", "HashEncoder", "parts", "C string"};
    c.note("%s of the first %llu bytes of the long message, %s", h.name, (unsigned long long)n, names[form]);
    c.label("one call, %s bytes", mark_names[mark]);
    c.label("one call: %s", names[form]);
    c.label("%s", h.name);
    uint64_t first = c.pick(3) ? c.pick(300) : 0; // something may be waiting in the context already
    if ((form == 1 || form == 3) && c.chance(1, 2)) { // the rest is a round number
        n = longmsg::MARKS[mark] + first;
        c.note("%llu bytes and %s", (unsigned long long)first, mark_names[mark]);
        c.label("one call: something, then a power of two");
    }
    Mapped m(n, form == 4);
    Out out(c, outn);
    if (form == 0) {
        c.op();
        h.encode(m.p(), n, out.u8(), bits);
    }
    else if (form == 1) {
        Ctx x(c, h.ctx_size);
        c.op();
        h.init(x.p());
        if (first) h.update(x.p(), m.p(), first);
        c.note("%llu bytes first", (unsigned long long)first);
        c.op();
        h.update(x.p(), m.p() + first, n - first);
        c.op();
        h.digest(x.p(), out.u8(), bits);
    }
    else if (form == 2) {
        c.op();
        libpgfe::HashEncoder e(h.choice);
        e.update(m.p(), n);
        const libpgfe::SequentialData *d = e.get_digest(outn * 8);
        Bytes got = bytes_of(*d);
        c.same("digest", got.data(), got.size(), [&] { return expected(a, n, bits); });
        c.nontrivial();
        return;
    }
    else if (form == 3) {
        Part v[2] = {{m.p(), (size_t)first}, {m.p() + first, (size_t)(n - first)}};
        c.op();
        h.encode_multi(out.u8(), bits, v, 2);
    }
    else {
        c.op();
        h.encode_default(m.p(), out.u8(), bits);
    }
    c.same("digest", out.u8(), outn, [&] { return expected(a, n, bits); });
    c.nontrivial();
}
void many_pieces(Case &c, int a, int mark) {
    const HashApi &h = hashes[a];
    uint64_t n = long_len(c, mark), bits = ref::is_xof(a) ? 512 : 0;
    size_t outn = ref::is_xof(a) ? 64 : ref::digest_size(a);
    int form = c.weighted({4, 2, 2});
    static const char *const names[] = {"context", "HashEncoder", "stream"};
    c.note("%s of the first %llu bytes of the long message, %s", h.name, (unsigned long long)n, names[form]);
    c.label("pieces, %s bytes", mark_names[mark]);
    c.label("pieces: %s", names[form]);
    c.label("%s", h.name);
    Out out(c, outn);
    auto want = [&] { return expected(a, n, bits); };
    if (form == 0) {
        Mapped m(n, false);
        Ctx x(c, h.ctx_size), y(c, h.ctx_size);
        c.op();
        h.init(x.p());
        int checks = 0;
        pieces(c, n, [&](uint64_t at, uint64_t k) {
            c.op();
            h.update(x.p(), m.at(at), k);
            bool near = false; // just behind a midstate, so that the reference is quick
            for (int i = 0; i < longmsg::NMARKS; i++) near |= at + k >= longmsg::offset(a, i) && at + k < longmsg::MARKS[i] + (1 << 20);
            if (near && checks < 40 && at + k < n && c.chance(2, 3)) { // a copy of the context gives the digest so far
                checks++;
                y.copy_from(x);
                h.digest(y.p(), out.u8(), bits);
                c.same("digest on the way", out.u8(), outn, [&] { return expected(a, at + k, bits); });
            }
        });
        c.op();
        h.digest(x.p(), out.u8(), bits);
        c.same("digest", out.u8(), outn, want);
    }
    else if (form == 1) {
        Mapped m(n, false);
        libpgfe::HashEncoder e(h.choice);
        pieces(c, n, [&](uint64_t at, uint64_t k) {
            c.op();
            if (k < 100000 && c.chance(1, 2)) {
                std::string s((const char *)m.at(at), k);
                e.update(s);
            }
            else e.update(m.at(at), k);
        });
        c.op();
        const libpgfe::SequentialData *d = e.get_digest(outn * 8);
        Bytes got = bytes_of(*d);
        c.same("digest", got.data(), got.size(), want);
    }
    else {
        Cookie k{0, n};
        cookie_io_functions_t io = {cookie_read, nullptr, nullptr, nullptr};
        FILE *f = fopencookie(&k, "r", io);
        if (!f) throw std::bad_alloc();
        std::vector<char> buf(1 << 16);
        setvbuf(f, buf.data(), _IOFBF, buf.size());
        c.op();
        h.encode_f(f, out.u8(), bits);
        fclose(f);
        c.same("digest", out.u8(), outn, want);
    }
    c.nontrivial();
}
void long_hmac(Case &c, int a, int mark) {
    const HmacApi &h = hmacs[a];
    uint64_t n = long_len(c, mark);
    size_t outn = ref::digest_size(a);
    int form = (int)c.pick(4);
    static const char *const names[] = {"one call", "context", "context, pieces", "HMACEncoder"};
    c.note("HMAC %s of the first %llu bytes of the long message, %s", h.name, (unsigned long long)n, names[form]);
    c.label("HMAC, %s bytes", mark_names[mark]);
    c.label("HMAC: %s", names[form]);
    c.label("%s", h.name);
    Bytes key = longmsg::key(a);
    Mapped m(n, false);
    Out out(c, outn);
    c.op();
    if (form == 0) h.oneshot(key.data(), key.size(), m.p(), n, out.u8());
    else if (form < 3) {
        Ctx x(c, h.ctx_size);
        h.init(x.p());
        h.set_key(x.p(), key.data(), key.size());
        if (form == 1) {
            uint64_t first = c.pick(3) ? c.pick(300) : 0;
            if (first) h.update(x.p(), m.p(), first);
            h.update(x.p(), m.p() + first, n - first);
        }
        else
            pieces(c, n, [&](uint64_t at, uint64_t k) {
                c.op();
                h.update(x.p(), m.at(at), k);
            });
        h.digest(x.p(), out.u8());
    }
    else {
        libpgfe::HMACEncoder e(h.choice, key.data(), key.size());
        uint64_t first = c.pick(3) ? c.pick(300) : 0;
        if (first) e.update(m.p(), first);
        e.update(m.p() + first, n - first);
        Bytes got = bytes_of(*e.get_digest());
        c.same("MAC", got.data(), got.size(), [&] { return longmsg::mac(pat(), a, n); });
        c.nontrivial();
        return;
    }
    c.same("MAC", out.u8(), outn, [&] { return longmsg::mac(pat(), a, n); });
    c.nontrivial();
}
void long_output(Case &c, int a, int form) {
    const HashApi &h = hashes[a];
    Bytes msg = c.data(ref::block_size(a), 500);
    // around 2^32 bits; requests after the first one continue the stream as long as they are of whole bytes
    uint64_t bits = (1ULL << 32) + c.pick(4001) - 2000;
    if (c.chance(1, 3)) bits = (1ULL << 32) + c.pick(1 << 22);
    if (form == 1) bits &= ~7ULL;
    static const char *const names[] = {"encode", "context, more afterwards", "context, two requests", "stream", "parts", "C string"};
    c.note("%s of %s, %llu bits of output, %s", h.name, show(msg).c_str(), (unsigned long long)bits, names[form]);
    c.label("output of 2^32 bits: %s", names[form]);
    c.label("%s", h.name);
    size_t n = bits_to_bytes(bits), extra = form == 1 ? 400 : 0;
    size_t total = (n + extra + 64 + PGSZ - 1) / PGSZ * PGSZ;
    uint8_t *o = (uint8_t *)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (o == MAP_FAILED) throw std::bad_alloc();
    memset(o + n + extra, 0xC9, total - n - extra);
    c.op();
    if (form == 0) h.encode(msg.data(), msg.size(), o, bits);
    else if (form == 3) {
        FILE *f = msg.empty() ? fopen("/dev/null", "r") : fmemopen(msg.data(), msg.size(), "r");
        if (!f) throw std::bad_alloc();
        h.encode_f(f, o, bits);
        fclose(f);
    }
    else if (form == 4) {
        size_t first = c.pick(msg.size() + 1);
        Part v[2] = {{msg.data(), first}, {msg.data() + first, msg.size() - first}};
        h.encode_multi(o, bits, v, 2);
    }
    else if (form == 5) {
        for (auto &x : msg) x = x ? x : 1;
        std::string t(msg.begin(), msg.end());
        h.encode_default((const uint8_t *)t.c_str(), o, bits);
    }
    else {
        Ctx x(c, h.ctx_size);
        h.init(x.p());
        h.update(x.p(), msg.data(), msg.size());
        uint64_t first = form == 2 ? 8 * c.pick(1 << 20) : bits;
        if (first) h.digest(x.p(), o, first);
        c.op();
        if (form == 2) h.digest(x.p(), o + first / 8, bits - first);
        else h.digest(x.p(), o + n, extra * 8);
    }
    auto r = ref::make(a);
    r->update(msg.data(), msg.size());
    Bytes w(1 << 20);
    for (size_t at = 0; at < n + extra; at += w.size()) {
        size_t k = n + extra - at < w.size() ? n + extra - at : w.size();
        r->read(w.data(), k);
        if (at + k == n + extra && bits % 8) w[k - 1] &= (uint8_t)((1 << bits % 8) - 1);
        c.op();
        if (memcmp(w.data(), o + at, k)) {
            size_t i = 0;
            while (w[i] == o[at + i]) i++;
            c.fail("output byte %zu of %zu is %02x, not %02x", at + i, n + extra, o[at + i], w[i]);
        }
    }
    for (size_t i = 0; i < 64; i++)
        if (o[n + extra + i] != 0xC9) c.memfail("byte %zu after the output was changed", i);
    munmap(o, total);
    c.nontrivial();
}
struct Task
{
    int kind, alg, mark, form; // alg, form -1: any
};
const std::vector<Task> &tasks() {
    static std::vector<Task> t;
    if (t.empty()) {
        auto add = [&](int k, int a, int m) { t.push_back({k, a, m, -1}); };
        static const int forms[] = {0, 3, 4, 5, 2, 1, 0, 3};
        static const int order[] = {11, 10, 2, 3, 15, 14, 9, 8, 12, 13, 0, 1, 4, 5, 6, 7};
        for (int i = 0; i < 16; i++) t.push_back({0, order[i], 4, i % 5}); // one call of 2^32 bytes
        for (int i = 0; i < 3; i++) add(2, -1, 4);
        for (int i = 0; i < 8; i++) t.push_back({3, ref::A_FIXED + i % 4, 0, forms[i]});
        for (int g = 0; g < 4; g++) add(1, -2 - g, 2);
        for (int a : order) add(1, a, 0);
        for (int a = 0; a < ref::A_FIXED; a++) add(2, a, 0);
        // 59 up to here: the quick check
        for (int a : order) add(1, a, 4);
        for (int a : order) add(1, a, 2);
        for (int a = 0; a < ref::A_FIXED; a++) add(2, a, 4);
        for (int a : order) add(0, a, 4);
        for (int a : order) add(0, a, 3), add(0, a, 1), add(0, a, 2);
        for (int i = 0; i < 24; i++) t.push_back({3, ref::A_FIXED + i % 4, 0, i / 4});
    }
    return t;
}
} // namespace

PROP_CPU(H05, 300, "every case: a message of 2^29 bytes or more, or an output of 2^32 bits or more") {
    Task t = tasks()[c.enumerate(tasks().size())];
    if (t.alg == -1) t.alg = (int)c.pick(ref::A_FIXED);
    if (t.alg < -1) {
        static const int lo[] = {ref::A_MD5, ref::A_SHA224, ref::A_SHA384, ref::A_SHA3_224}, n[] = {2, 2, 4, 8};
        int g = -2 - t.alg;
        t.alg = lo[g] + (int)c.pick((uint64_t)n[g]);
    }
    if (t.kind == 0) whole_message(c, t.alg, t.mark, t.form);
    else if (t.kind == 1) many_pieces(c, t.alg, t.mark);
    else if (t.kind == 2) long_hmac(c, t.alg, t.mark);
    else long_output(c, t.alg, t.form);
}
// Outputs of more bytes than 31 or 32 bits can count, from the functions and from HashEncoder
PROP_CPU(H05out, 600, "every case: an output of 2^31 bytes or more") {
    int k = (int)c.enumerate(8), a = ref::A_FIXED + (k & 3);
    bool object = ((k >> 2) ^ k) & 1, two = !object && c.pick(2);
    const HashApi &h = hashes[a];
    Bytes msg = c.data(ref::block_size(a), 500);
    size_t n = ((size_t)1 << (object ? 31 : 32)) + 1 + c.pick(5000), tail = two ? 1 + c.pick(400) : 0;
    c.note("%s of %s, %zu bytes of output, %s", h.name, show(msg).c_str(), n, object ? "HashEncoder" : two ? "context" : "one call");
    c.label("%s: %s", object ? "HashEncoder, 2^31 bytes" : "function, 2^32 bytes", h.name);
    c.nontrivial();
    auto r = ref::make(a);
    r->update(msg.data(), msg.size());
    auto compare = [&](const uint8_t *o, size_t m) {
        Bytes w(1 << 20);
        for (size_t at = 0; at < m; at += w.size()) {
            size_t l = m - at < w.size() ? m - at : w.size();
            r->read(w.data(), l);
            if (memcmp(w.data(), o + at, l)) {
                size_t i = 0;
                while (w[i] == o[at + i]) i++;
                c.fail("output byte %zu of %zu is %02x, not %02x", at + i, m, o[at + i], w[i]);
            }
        }
    };
    c.op();
    if (object) {
        libpgfe::HashEncoder e(h.choice);
        e.update(msg.data(), msg.size());
        const libpgfe::SequentialData *d = e.get_digest((uint64_t)n * 8);
        size_t got = d->length();
        c.same("length of the digest", got, [&] { return n; });
        compare(d->data(), n);
        return;
    }
    size_t total = (n + tail + 64 + PGSZ - 1) / PGSZ * PGSZ;
    uint8_t *o = (uint8_t *)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (o == MAP_FAILED) throw std::bad_alloc();
    memset(o + n + tail, 0xC9, total - n - tail);
    if (two) {
        Ctx x(c, h.ctx_size);
        h.init(x.p());
        h.update(x.p(), msg.data(), msg.size());
        h.digest(x.p(), o, (uint64_t)n * 8);
        c.op();
        h.digest(x.p(), o + n, tail * 8);
    }
    else h.encode(msg.data(), msg.size(), o, (uint64_t)n * 8);
    compare(o, n + tail);
    for (size_t i = n + tail; i < total; i++)
        if (o[i] != 0xC9) c.memfail("byte %zu after the output was changed", i - n - tail);
    munmap(o, total);
}
// Calls with more bytes than an int can count, with and without something waiting in the context.
// Run where signed overflow wraps: elsewhere an optimiser may hide it.
PROP_CPU(H05wrap, 300, "every case: one call with 2^31 bytes or about as many") {
    static const int order[] = {11, 10, 2, 3, 15, 14, 9, 8, 12, 13, 0, 1, 4, 5, 6, 7};
    whole_message(c, order[c.enumerate(16)], 2);
}
// Where size_t has 32 bits, the counts of bytes and bits must not
PROP_CPU(H05m32, 600, "every case: a message of 2^29 bytes or more where size_t has 32 bits") {
    static const int lo[] = {ref::A_SHA384, ref::A_SHA3_224, ref::A_SHA224, ref::A_MD5}, n[] = {2, 8, 2, 2};
    int k = (int)c.enumerate(20), a = lo[k & 3] + (int)c.pick((uint64_t)n[k & 3]);
    if (sizeof(size_t) != 4) throw pbt::Discard();
    if (k < 4) many_pieces(c, a, k == 1 ? 0 : 4);
    else if (k < 8) whole_message(c, a, (k >> 2) & 1 ? 0 : 1, -1);
    else if (k < 12) long_hmac(c, a < ref::A_FIXED ? a : ref::A_SHA3_256, 0);
    else if (k < 16) whole_message(c, a, 1, -1);
    else many_pieces(c, a, (int)c.pick(3));
}
// A context in which something waits gets a number of bytes that is a multiple of 2^29, in one call
PROP_CPU(H05round, 120, "every case: a context in which something waits gets 2^29 bytes in one call") {
    int a = (int)c.enumerate(ref::A_COUNT);
    const HashApi &h = hashes[a];
    uint64_t first = 1 + c.pick(300), n = first + (1ULL << 29), bits = ref::is_xof(a) ? 512 : 0;
    size_t outn = ref::is_xof(a) ? 64 : ref::digest_size(a);
    c.note("%s of the first %llu bytes of the long message, %llu and the rest", h.name, (unsigned long long)n, (unsigned long long)first);
    c.label("something, then 2^29 bytes");
    Mapped m(n, false);
    Out out(c, outn);
    Ctx x(c, h.ctx_size);
    c.op();
    h.init(x.p());
    h.update(x.p(), m.p(), first);
    c.op();
    h.update(x.p(), m.p() + first, n - first);
    c.op();
    h.digest(x.p(), out.u8(), bits);
    c.same("digest", out.u8(), outn, [&] { return expected(a, n, bits); });
    c.nontrivial();
}
// Keys of more bytes than 32 bits count: RFC 2104 hashes them
static Bytes huge_key(Case &c, int a, uint64_t n) {
    c.note("%s, a key of the first %llu bytes of the long message", hashes[a].name, (unsigned long long)n);
    c.label("key of 2^32 bytes");
    c.label("%s", hashes[a].name);
    c.nontrivial();
    return expected(a, n, 0);
}
static void mac_huge_key(Case &c) {
    static const int order[] = {ref::A_SHA1, ref::A_MD5, ref::A_SHA256, ref::A_SHA512, ref::A_SHA3_256};
    int a = order[c.enumerate(5)], form = (int)c.pick(4);
    const HmacApi &h = hmacs[a];
    uint64_t n = (1ULL << 32) + (c.chance(1, 2) ? c.pick(2 * ref::block_size(a)) : c.pick(100000)); // cut to 32 bits, it may look like a short one
    Bytes msg = c.data(ref::block_size(a), 300), k = huge_key(c, a, n);
    static const char *const names[] = {"one call", "by algorithm", "context", "HMACEncoder"};
    c.label("%s", names[form]);
    Mapped m(n, false);
    Out out(c, ref::digest_size(a));
    c.op();
    if (form == 0) h.oneshot(m.p(), n, msg.data(), msg.size(), out.u8());
    else if (form == 1) pgfe_hmac(h.choice, m.p(), n, msg.data(), msg.size(), out.u8());
    else if (form == 2) {
        Ctx x(c, h.ctx_size);
        h.init(x.p());
        h.set_key(x.p(), m.p(), n);
        h.update(x.p(), msg.data(), msg.size());
        h.digest(x.p(), out.u8());
    }
    else {
        libpgfe::HMACEncoder e(h.choice, m.p(), n);
        e.update(msg.data(), msg.size());
        Bytes got = bytes_of(*e.get_digest());
        memcpy(out.u8(), got.data(), got.size() < ref::digest_size(a) ? got.size() : ref::digest_size(a));
    }
    c.same("MAC", out.u8(), ref::digest_size(a), [&] { return ref::hmac(a, k, msg); });
}
static pbt::Reg r_m01("M01long", "every case", mac_huge_key, 300);
static void otp_huge_key(Case &c) {
    static const int order[] = {ref::A_SHA1, ref::A_SHA512, ref::A_SHA256, ref::A_SHA384, ref::A_SHA3_224};
    int a = order[c.enumerate(5)];
    uint64_t n = (1ULL << 32) + c.pick(300), counter = c.u64();
    unsigned digits = 1 + (unsigned)c.pick(12);
    Bytes k = huge_key(c, a, n);
    Mapped m(n, false);
    c.op();
    uint32_t got = a == ref::A_SHA1 && c.pick(2) ? pgfe_hotp(m.p(), n, counter, (uint8_t)digits) : pgfe_hotp_generic(hashes[a].choice, m.p(), n, counter, (uint8_t)digits);
    c.same("code", (uint64_t)got, [&] { return (uint64_t)ref::hotp(a, k, counter, digits); });
}
static pbt::Reg r_o01("O01long", "every case", otp_huge_key, 300);
static void fish_huge_key(Case &c) {
    uint64_t n = (1ULL << (c.pick(2) ? 32 : 31)) + c.pick(100);
    c.note("Blowfish, a key of the first %llu bytes of the long message", (unsigned long long)n);
    c.label("key of 2^31 bytes and more");
    c.nontrivial();
    uint8_t u[8];
    for (auto &x : u) x = (uint8_t)c.pick(256);
    Mapped m(n, false);
    pgfe_blowfish_ctx x;
    c.op();
    pgfe_blowfish_init(&x, m.p(), n);
    ref::Blowfish r(Bytes(m.p(), m.p() + 72));
    uint8_t out[8];
    c.op();
    pgfe_blowfish_encrypt(&x, u, 8, out);
    Bytes e = r.buffer(Bytes(u, u + 8), true);
    c.same("block", out, 8, [&] { return e; });
}
static pbt::Reg r_f01("F01long", "every case", fish_huge_key, 300);
// Encoders fed with a C string, a std::string or a sequence of more than 4 GiB
template <class E> static void feed_huge(Case &c, E &e, int a, bool mac) {
    int form = (int)c.enumerate(3);
    static const char *const names[] = {"C string", "sequence", "std::string"};
    uint64_t n = (1ULL << 32) + 1 + c.pick(100000), first = c.pick(2) ? c.pick(300) : 0;
    c.note("%s of the first %llu bytes of the long message, %llu of them first, then as a %s", hashes[a].name, (unsigned long long)n, (unsigned long long)first, names[form]);
    c.label("update with a %s of 2^32 bytes", names[form]);
    c.label("%s", hashes[a].name);
    c.nontrivial();
    Mapped m(n, form == 0);
    if (first) e.update(m.p(), first);
    c.op();
    if (form == 0) e.update((const char *)m.p() + first);
    else if (form == 1) {
        libpgfe::SequentialData d(m.p() + first, n - first);
        e.update(d);
    }
    else {
        std::string s((const char *)m.p() + first, n - first);
        e.update(s);
    }
    c.op();
    Bytes got = bytes_of(*e.get_digest());
    c.same("digest", got.data(), got.size(), [&] { return mac ? longmsg::mac(pat(), a, n) : expected(a, n, ref::is_xof(a) ? 8 * ref::digest_size(a) : 0); });
}
static void hash_encoder_huge(Case &c) {
    int a = (int)c.pick(ref::A_COUNT);
    libpgfe::HashEncoder e(hashes[a].choice);
    feed_huge(c, e, a, false);
}
static pbt::Reg r_e01("E01long", "every case", hash_encoder_huge, 300);
static void hmac_encoder_huge(Case &c) {
    int a = (int)c.pick(ref::A_FIXED);
    Bytes key = longmsg::key(a);
    libpgfe::HMACEncoder e(hashes[a].choice, key.data(), key.size());
    feed_huge(c, e, a, true);
}
static pbt::Reg r_e02("E02long", "every case", hmac_encoder_huge, 300);
