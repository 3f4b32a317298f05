// B01 B02 B03 B04 B05: Base 16, 32 and 64
#include "common.hpp"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include <atomic>
#include <pthread.h>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
using namespace api;
using namespace gen;
using libpgfe::SequentialData;

namespace {
size_t dec_capacity(int b, size_t nchars) { // whole units, and a terminator
    return (nchars + ref::base_chars(b) - 1) / ref::base_chars(b) * ref::base_bytes(b) + 1;
}
size_t enc_length(int b, size_t n) { return (n + ref::base_bytes(b) - 1) / ref::base_bytes(b) * ref::base_chars(b); }
Bytes base_data(Case &c) {
    size_t n;
    if (c.deep == Case::BIG && (n = c.big(15))) return c.bytes(n);
    switch (c.weighted({6, 5, 4, 2, 1})) {
    case 0: n = c.pick(12); break;
    case 1: n = c.pick(300); break;
    case 2: n = c.len(15, 3000); break;
    case 3: n = c.len(64, 30000); break;
    default: n = c.len(4096, 140000);
    }
    return c.bytes(n);
}
bool is_noise(int b, unsigned char ch) { return ref::base_value(b, ch) == -1; }
char noise(Case &c, int b) {
    for (int i = 0; i < 20; i++) {
        static const char t[] = "\n \r\t-.:,_!\"#$%&'()*;<>?@[]\\^`{|}~";
        unsigned char ch;
        switch (c.weighted({4, 3, 2, 2})) {
        case 0: ch = (unsigned char)t[c.pick(sizeof t - 1)]; break;
        case 1: ch = (unsigned char)(1 + c.pick(255)); break;
        case 2: ch = (unsigned char)(0x80 + c.pick(128)); break;
        default: ch = (unsigned char)('0' + c.pick(78));
        }
        if (is_noise(b, ch)) return (char)ch;
    }
    return '\n';
}
// Another accepted spelling of an encoded text
std::string respell(Case &c, int b, std::string t, std::string &how) {
    if (c.chance(1, 2)) { // drop the padding
        while (!t.empty() && t.back() == '=') t.pop_back();
        how += " no padding";
    }
    if (b == ref::B16 || b == ref::B32 || b == ref::B32HEX) {
        int m = (int)c.pick(3);
        if (m) how += m == 1 ? " lower case" : " mixed case";
        Src s;
        s.seed(m == 2 ? c.pick(1 << 20) : 0);
        for (auto &x : t)
            if (m == 1 || (m == 2 && s.draw(2))) x = lower(x);
    }
    else {
        int m = (int)c.pick(3);
        if (m) how += m == 1 ? " other alphabet" : " both alphabets";
        Src s;
        s.seed(m == 2 ? c.pick(1 << 20) : 0);
        for (auto &x : t)
            if (m == 1 || (m == 2 && s.draw(2))) {
                if (x == '+') x = '-';
                else if (x == '-') x = '+';
                else if (x == '/') x = '_';
                else if (x == '_') x = '/';
            }
    }
    int m = c.chance(1, 60) || (c.deep == Case::BIG && c.chance(1, 3)) ? 4 : c.weighted({4, 2, 4, 2});
    if (m == 4) { // a long run
        size_t at = c.weighted({3, 1, 1}) ? (c.pick(2) ? t.size() : 0) : c.pick(t.size() + 1), cnt;
        if (!(cnt = c.big(16))) cnt = c.pick(6) ? 200 + c.pick(200) : 65000 + c.pick(6000);
        std::string s(1 + c.pick(5), 0);
        for (auto &x : s) x = noise(c, b);
        std::string run;
        while (run.size() < cnt) run += s;
        run.resize(cnt);
        t.insert(at, run);
        how += " a long run of other characters";
    }
    else if (m == 1) { // lines
        size_t w = 1 + c.pick(80);
        std::string r;
        for (size_t i = 0; i < t.size(); i += w) r += t.substr(i, w) + "\n";
        t = r;
        how += " lines";
    }
    else if (m == 2) {
        int k = 1 + (int)c.pick(8);
        while (k--) {
            size_t at = c.weighted({3, 1, 1}) ? (c.pick(2) ? t.size() : 0) : c.pick(t.size() + 1);
            size_t cnt = 1 + c.pick(3);
            std::string s;
            while (cnt--) s += noise(c, b);
            t.insert(at, s);
        }
        how += " other characters";
    }
    else if (m == 3) {
        Src s;
        s.seed(c.pick(1 << 20));
        std::string r, pool;
        for (int i = 0; i < 8; i++) pool += noise(c, b);
        for (char x : t) {
            while (s.draw(3) == 0) r += pool[s.draw(8)];
            r += x;
        }
        while (c.chance(1, 2)) r += pool[c.pick(8)];
        t = r;
        how += " many other characters";
    }
    return t;
}
Bytes run_decode(Case &c, int b, const std::string &t) {
    size_t cap = dec_capacity(b, t.size());
    In in(c, t);
    Out o(c, cap);
    c.op();
    size_t n = bases[b].dec(in.cs(), o.u8());
    o.check();
    in.verify();
    if (n > cap) c.fail("decoding %s returned the length %zu", show_text(t).c_str(), n);
    if (n < cap && o.u8()[n]) c.fail("what %s decodes to is not followed by a zero byte but by %02x", show_text(t).c_str(), o.u8()[n]); // text can be used as such
    return Bytes(o.u8(), o.u8() + n);
}
libpgfe::AbstractBaseEncoding *make_codec(int b, Place<libpgfe::Base16> &p16, Place<libpgfe::Base32> &p32, Place<libpgfe::Base64> &p64, bool dflt) {
    switch (b) {
    case ref::B16: return &p16.make();
    case ref::B32: return dflt ? &p32.make() : &p32.make(false);
    case ref::B32HEX: return &p32.make(true);
    case ref::B64: return dflt ? &p64.make() : &p64.make(false);
    default: return &p64.make(true);
    }
}

// An input of more than 4 GiB, made of one page mapped again and again; so is the output
void long_encode(Case &c, int b) {
    const size_t PGSZ = 1 << 20;
    size_t n = (1ULL << 32) + 1 + c.pick(40);
    if (g_thorough && c.chance(1, 2)) n -= 1ULL << 31;
    size_t want = enc_length(b, n);
    c.label("longer than 2 GiB");
    c.note("%s of %zu bytes", bases[b].name, n);
    auto map_repeated = [&](size_t len, const Bytes *fill) {
        size_t total = (len + PGSZ - 1) / PGSZ * PGSZ;
        int fd = memfd_create("long", 0);
        if (ftruncate(fd, (off_t)PGSZ)) throw std::bad_alloc();
        uint8_t *p = (uint8_t *)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) throw std::bad_alloc();
        for (size_t o = 0; o < total; o += PGSZ)
            if (mmap(p + o, PGSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) throw std::bad_alloc();
        if (fill) memcpy(p, fill->data(), PGSZ);
        close(fd);
        return p;
    };
    Bytes page = c.bytes(PGSZ);
    uint8_t *in = map_repeated(n, &page), *out = map_repeated(want + 1, nullptr);
    c.op();
    size_t got = bases[b].enc(in, n, (char *)out);
    c.same("length of the text", got, [&] { return (uint64_t)want; });
    // the last window of the output holds the end of the text
    size_t tail_in = n % ref::base_bytes(b) + 600 * ref::base_bytes(b);
    Bytes last(tail_in);
    for (size_t i = 0; i < tail_in; i++) last[i] = in[n - tail_in + i];
    std::string e = ref::encode(b, last);
    size_t inside = (want % PGSZ) ? want % PGSZ : PGSZ; // the text's end within the last window
    if (e.size() > inside) e = e.substr(e.size() - inside);
    c.same("end of the text", std::string((char *)out + want - e.size(), e.size()), [&] { return e; });
    c.require("terminated", out[want] == 0);
    munmap(in, (n + PGSZ - 1) / PGSZ * PGSZ);
    munmap(out, (want + 1 + PGSZ - 1) / PGSZ * PGSZ);
    c.nontrivial();
}
} // namespace

static void encode_case(Case &c) {
    int b = (int)c.pick(ref::B_COUNT);
    Bytes x = base_data(c);
    size_t want = enc_length(b, x.size());
    c.label("%s", bases[b].name);
    c.label("rest %zu", x.size() % ref::base_bytes(b));
    c.note("%s of %s", bases[b].name, show(x).c_str());
    In in(c, x.data(), x.size());
    Out o(c, want + 1);
    c.op();
    size_t n = bases[b].enc(in.u8(), x.size(), o.cs());
    o.check();
    in.verify();
    c.same("length of the text", n, [&] { return (uint64_t)want; });
    c.same("text and terminator", o.u8(), want + 1, [&] {
        std::string e = ref::encode(b, x);
        Bytes r(e.begin(), e.end());
        r.push_back(0);
        return r;
    });
    if (!x.empty()) c.nontrivial();
}
PROP_BODY(B01, "the byte string is not empty") { encode_case(c); }
PROP_BIG(B01)
static void long_base_case(Case &c) { long_encode(c, c.weighted({1, 1, 1, 4, 1})); }
static Reg reg_long("B01long", "every case", long_base_case, 240);

PROP_BODY(B02, "the byte string is not empty") {
    int b = (int)c.pick(ref::B_COUNT);
    Bytes x = base_data(c);
    int how = c.weighted({4, 2, 2});
    c.label("%s", bases[b].name);
    c.label("%s", how == 0 ? "C functions" : "objects");
    if (!x.empty() && !x.back()) c.label("ends in a zero byte");
    c.note("%s of %s, form %d", bases[b].name, show(x).c_str(), how);
    Bytes back;
    if (how == 0) {
        In in(c, x.data(), x.size());
        size_t cap = enc_length(b, x.size()) + 1;
        Out t(c, cap);
        c.op();
        size_t n = bases[b].enc(in.u8(), x.size(), t.cs());
        if (n >= cap) c.fail("the encoder returned %zu for %zu bytes", n, x.size());
        t.check();
        back = run_decode(c, b, std::string(t.cs(), n));
    }
    else {
        Place<libpgfe::Base16> p16(c);
        Place<libpgfe::Base32> p32(c);
        Place<libpgfe::Base64> p64(c);
        libpgfe::AbstractBaseEncoding *o = make_codec(b, p16, p32, p64, c.chance(1, 2));
        std::string t;
        c.op();
        if (how == 1) t = o->encode(x.data(), x.size());
        else t = o->encode(gen::str(x));
        c.op();
        SequentialData d = c.chance(1, 2) ? o->decode(t) : o->decode(t.c_str());
        back = bytes_of(d);
    }
    c.same("decoded bytes", back.data(), back.size(), [&] { return x; });
    if (!x.empty()) c.nontrivial();
}
PROP_BIG(B02)

PROP_BODY(B03, "the text differs from the standard encoding") {
    int b = (int)c.pick(ref::B_COUNT);
    c.label("%s", bases[b].name);
    if (c.chance(1, 12)) { // no characters of the alphabet
        std::string t;
        size_t n = c.pick(20);
        while (n--) t += c.chance(1, 4) ? '=' : noise(c, b);
        c.note("%s text %s", bases[b].name, show_text(t).c_str());
        Bytes got = run_decode(c, b, t);
        c.same("decoded bytes", got.data(), got.size(), [&] { return Bytes(); });
        c.label("no alphabet characters");
        if (!t.empty()) c.nontrivial();
        return;
    }
    Bytes x = base_data(c);
    std::string plain = ref::encode(b, x), how, t = respell(c, b, plain, how);
    c.note("%s of %s spelled%s: %s", bases[b].name, show(x).c_str(), how.c_str(), show_text(t).c_str());
    c.label("spelled%s", how.c_str());
    Bytes got;
    if (c.chance(1, 4)) {
        Place<libpgfe::Base16> p16(c);
        Place<libpgfe::Base32> p32(c);
        Place<libpgfe::Base64> p64(c);
        libpgfe::AbstractBaseEncoding *o = make_codec(b, p16, p32, p64, c.chance(1, 2));
        c.op();
        got = bytes_of(c.chance(1, 2) ? o->decode(t) : o->decode(t.c_str()));
    }
    else got = run_decode(c, b, t);
    c.same("decoded bytes", got.data(), got.size(), [&] { return x; });
    if (t != plain) c.nontrivial();
}
PROP_BIG(B03)

namespace {
// One call on an object; checks its result
int codec_call(Case &c, int b, libpgfe::AbstractBaseEncoding *o, size_t maxlen) {
    Bytes x = c.bytes(c.chance(1, 12) ? c.pick(4) : c.chance(1, 2) ? c.pick(260) : c.len(128, maxlen));
    c.op();
    int form = c.weighted({3, 2, 3, 3, 4, 4});
    if (form > 3 && c.chance(1, 16)) { // nothing to decode
        std::string t;
        size_t n = c.pick(20);
        while (n--) t += c.chance(1, 4) ? '=' : noise(c, b);
        c.note("decode %s", show_text(t).c_str());
        Bytes got;
        if (form == 4) {
            In in(c, t);
            got = bytes_of(o->decode(in.cs()));
        }
        else got = bytes_of(o->decode(t));
        c.same("decoded bytes", got.data(), got.size(), [&] { return Bytes(); });
        return 2;
    }
    switch (form) {
    case 0: {
        In in(c, x.data(), x.size());
        c.note("encode bytes %s", show(x).c_str());
        c.same("text", o->encode(in.u8(), x.size()), [&] { return ref::encode(b, x); });
        in.verify();
        break;
    }
    case 1: {
        x = cut_at_nul(x);
        In in(c, gen::str(x));
        c.note("encode C string %s", show(x).c_str());
        c.same("text", o->encode(in.cs()), [&] { return ref::encode(b, x); });
        break;
    }
    case 2:
        c.note("encode std::string %s", show(x).c_str());
        c.same("text", o->encode(gen::str(x)), [&] { return ref::encode(b, x); });
        break;
    case 3: {
        SequentialData d = seq(x);
        c.note("encode sequence %s", show(x).c_str());
        c.same("text", o->encode(d), [&] { return ref::encode(b, x); });
        break;
    }
    default: {
        std::string how, t = ref::encode(b, x);
        if (c.chance(1, 3)) t = respell(c, b, t, how);
        c.note("decode %s%s", show_text(t).c_str(), how.c_str());
        Bytes got;
        if (form == 4) {
            In in(c, t);
            got = bytes_of(o->decode(in.cs()));
        }
        else got = bytes_of(o->decode(t));
        c.same("decoded bytes", got.data(), got.size(), [&] { return x; });
    }
    }
    return form < 4 ? 1 : 2;
}
} // namespace

PROP_BODY(B04, "at least three calls on the same object, both encoding and decoding") {
    int b = (int)c.pick(ref::B_COUNT);
    Place<libpgfe::Base16> p16(c);
    Place<libpgfe::Base32> p32(c);
    Place<libpgfe::Base64> p64(c);
    c.op();
    libpgfe::AbstractBaseEncoding *o = make_codec(b, p16, p32, p64, c.chance(1, 2));
    c.label("%s", bases[b].name);
    c.note("%s object", bases[b].name);
    size_t calls = c.steps(1, 14);
    int seen = 0;
    for (size_t i = 0; i < calls; i++) {
        if (c.chance(1, 10)) {
            c.same("unit_size()", o->unit_size(), [&] { return (uint64_t)ref::base_bytes(b); });
            c.same("chunk_size()", o->chunk_size(), [&] { return (uint64_t)ref::base_chars(b); });
            c.same("bit_size()", o->bit_size(), [&] { return (uint64_t)ref::base_bits(b); });
            c.same("alphabet_size()", o->alphabet_size(), [&] { return (uint64_t)1 << ref::base_bits(b); });
            if (b == ref::B32 || b == ref::B32HEX) c.same("is_hex_mode()", p32->is_hex_mode(), [&] { return (uint64_t)(b == ref::B32HEX); });
            if (b == ref::B64 || b == ref::B64URL) c.same("is_url_safe_mode()", p64->is_url_safe_mode(), [&] { return (uint64_t)(b == ref::B64URL); });
            c.label("getters");
        }
        seen |= codec_call(c, b, o, c.chance(1, 20) ? 140000 : 3000);
    }
    if (calls >= 3 && seen == 3) c.nontrivial();
}
PROP_BIG(B04)
PROP_LIFE(B04)

// Several threads, one object
static void shared_object(Case &c) {
    int b = (int)c.pick(ref::B_COUNT);
    Place<libpgfe::Base16> p16(c);
    Place<libpgfe::Base32> p32(c);
    Place<libpgfe::Base64> p64(c);
    libpgfe::AbstractBaseEncoding *o = make_codec(b, p16, p32, p64, c.chance(1, 2));
    int n = c.chance(1, 12) ? 5 + (int)c.pick(4) : 2 + (int)c.pick(3), calls = 1 + (int)c.pick(8);
    size_t maxlen = c.chance(1, 4) ? 3000 : 400;
    if (c.chance(1, 40)) maxlen = 70000;
    c.label("%s, %d threads", bases[b].name, n);
    c.note("%s object shared by %d threads with %d calls each", bases[b].name, n, calls);
    std::vector<uint64_t> seeds;
    int fixed = (int)c.pick(4); // all encode, all decode, or mixed
    for (int i = 0; i < n; i++) seeds.push_back(c.pick(1ULL << 32));
    std::atomic<int> ready{0};
    std::vector<std::string> msg((size_t)n);
    struct Call
    {
        bool enc;
        int form;
        Bytes x;
        std::string t;
    };
    std::vector<std::vector<Call>> plan((size_t)n);
    for (int i = 0; i < n; i++) {
        Src s;
        s.seed(seeds[(size_t)i]);
        Case k(&s);
        for (int q = 0; q < calls; q++) {
            Call z;
            z.enc = fixed == 0 ? true : fixed == 1 ? false : k.pick(2);
            z.x = k.bytes(k.chance(1, 2) ? k.pick(260) : k.pick(maxlen));
            z.form = (int)k.pick(3);
            z.t = ref::encode(b, z.x);
            plan[(size_t)i].push_back(z);
        }
    }
    std::vector<std::thread> th;
    for (int i = 0; i < n; i++)
        th.emplace_back([&, i] {
            ready++;
            while (ready < n) {}
            for (auto &z : plan[(size_t)i]) {
                if (z.enc) {
                    std::string t = z.form == 0 ? o->encode(z.x.data(), z.x.size()) : z.form == 1 ? o->encode(gen::str(z.x)) : o->encode(gen::seq(z.x));
                    if (t != z.t) msg[(size_t)i] = "thread " + std::to_string(i) + ": encoding " + show(z.x) + " gave " + show_text(t);
                }
                else {
                    SequentialData d = z.form ? o->decode(z.t) : o->decode(z.t.c_str());
                    Bytes r(d.begin(), d.end());
                    if (r != z.x) msg[(size_t)i] = "thread " + std::to_string(i) + ": decoding " + show_text(z.t) + " gave " + show(r);
                }
            }
        });
    for (auto &t : th) t.join();
    for (auto &m : msg)
        if (!m.empty()) c.fail("%s", m.c_str());
    c.nontrivial();
}
PROP(B05, "two or more threads use the object at the same time") { shared_object(c); }
// The same, as the first thing a process does
PROP(B05first, "two or more threads use the object at the same time") { in_fresh_process(c, shared_object); c.nontrivial(); }
