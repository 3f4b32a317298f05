// Inputs and outputs of 2 GiB and more outside the hashes (those are in p_long.cpp).
// One window is mapped again and again, so that inputs need no memory; outputs whose contents repeat with the
// input are mapped onto one window, too, and only their end has memory of its own.
#include "common.hpp"
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/utils.h"
#include "libpgfe/utils.hpp"
#include <sys/mman.h>
#include <unistd.h>
using namespace api;
using namespace gen;
using namespace libpgfe;

namespace {
const uint64_t G2 = 1ULL << 31, G4 = 1ULL << 32;
const size_t WIN = 1 << 20;
class Repeated
{
    uint8_t *base;
    size_t per, len, map; // the window, the length, the mapped bytes

public:
    uint8_t *p;
    // A window of per bytes (whole pages), altogether len bytes; something inaccessible follows
    Repeated(size_t per, size_t len) : per(per), len(len) {
        size_t whole = len / per * per, rest = (len - whole + 4095) / 4096 * 4096;
        map = whole + rest + 4096;
        base = (uint8_t *)mmap(nullptr, map, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) throw std::bad_alloc();
        int fd = memfd_create("huge", 0);
        bool ok = fd >= 0 && !ftruncate(fd, (off_t)per);
        for (size_t o = 0; ok && o < whole; o += per) ok = mmap(base + o, per, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
        if (fd >= 0) close(fd);
        if (ok && rest) ok = !mprotect(base + whole, rest, PROT_READ | PROT_WRITE);
        if (!ok) {
            munmap(base, map);
            throw std::bad_alloc();
        }
        p = base;
        for (size_t i = whole; i < whole + rest; i++) p[i] = 0xA5; // behind the end, too
    }
    ~Repeated() { munmap(base, map); }
    Repeated(const Repeated &) = delete;
    size_t whole() const { return len / per * per; }
    size_t slack() const { return (len - whole() + 4095) / 4096 * 4096 - (len - whole()); }
    void fill(const uint8_t *w) { // the contents, without a terminator
        memcpy(p, w, per);
        memcpy(p + whole(), w, len - whole());
    }
    // The contents are w, repeated
    bool is(const uint8_t *w, size_t n) const {
        size_t wh = n / per * per;
        if (wh && memcmp(p, w, per)) return false;
        return !memcmp(p + wh, w, n - wh);
    }
    bool clean() const {
        for (size_t i = 0; i < slack(); i++)
            if (p[len + i] != 0xA5) return false;
        return true;
    }
};
bool repeats(const uint8_t *p, size_t n, const Bytes &w) {
    for (size_t i = 0; i < n; i += w.size()) {
        size_t k = n - i < w.size() ? n - i : w.size();
        if (memcmp(p + i, w.data(), k)) return false;
    }
    return true;
}
Bytes window(Case &c, size_t n) {
    Bytes w(n);
    Src s;
    s.seed(c.pick(1 << 30));
    for (auto &x : w) x = (uint8_t)s.draw(256);
    return w;
}
// A length beyond 32 bits, signed or not
uint64_t huge(Case &c, const char *what, uint64_t unit, uint64_t least = G4) {
    uint64_t n = least / unit * unit + unit * (1 + c.pick(5000));
    c.note("%s of %llu bytes", what, (unsigned long long)n);
    c.label("%s", what);
    c.nontrivial();
    c.op();
    return n;
}
// Where memory is short, objects (which keep copies) get less
uint64_t roomy() {
    FILE *f = fopen("/proc/meminfo", "r");
    char l[200];
    unsigned long long kb = 0;
    while (f && fgets(l, sizeof l, f))
        if (sscanf(l, "MemAvailable: %llu", &kb) == 1) break;
    if (f) fclose(f);
    return kb > (20ULL << 20) ? G4 : G2;
}
size_t enc_length(int b, size_t n) { return (n + ref::base_bytes(b) - 1) / ref::base_bytes(b) * ref::base_chars(b); }
} // namespace

static void decode_huge(Case &c) {
    int b = (int)c.enumerate(ref::B_COUNT);
    b = (b + 3) % ref::B_COUNT;
    c.label("%s", bases[b].name);
    size_t chars = ref::base_chars(b), unit = ref::base_bytes(b), per = WIN / chars * unit;
    Bytes data = window(c, per);
    std::string text = ref::encode(b, data);
    uint64_t n = huge(c, "decoding a text", chars, G4 / unit * chars + 2 * chars), m = n / chars * unit;
    Repeated in(WIN, n + 1), out(per, m + 1);
    in.fill((const uint8_t *)text.data());
    in.p[n] = 0;
    size_t got = bases[b].dec((const char *)in.p, out.p);
    c.same("returned length", got, [&] { return m; });
    c.require("the decoded bytes are right", out.is(data.data(), m));
    c.require("nothing behind the output is written", out.clean());
}
static Reg r1("B02long", "every case", decode_huge, 600);

static void base_object_huge(Case &c) {
    int b = ref::B64 + (int)c.pick(2);
    Base64 o(b == ref::B64URL);
    size_t per = WIN / 4 * 3;
    Bytes data = window(c, per);
    std::string text = ref::encode(b, data);
    if (c.enumerate(2) == 0) {
        uint64_t n = huge(c, "encoding by an object", 1, roomy());
        std::string t;
        {
            Repeated in(per, n);
            in.fill(data.data());
            t = o.encode(in.p, n);
        }
        c.same("length", t.size(), [&] { return (uint64_t)enc_length(b, n); });
        Bytes w(text.begin(), text.end());
        uint64_t same = n / 3 * 4;
        c.require("the text is right", repeats((const uint8_t *)t.data(), same, w));
        size_t rest = n % 3; // the last characters
        Bytes last(data.begin() + (ptrdiff_t)((n - rest) % per), data.begin() + (ptrdiff_t)((n - rest) % per + rest));
        c.same("end of the text", t.substr(same), [&] { return ref::encode(b, last); });
    }
    else {
        uint64_t n = huge(c, "decoding by an object", 4, roomy() / 3 * 4 + 1000);
        Repeated in(WIN, n + 1);
        in.fill((const uint8_t *)text.data());
        in.p[n] = 0;
        SequentialData d = o.decode((const char *)in.p);
        c.same("length", d.size(), [&] { return (uint64_t)n / 4 * 3; });
        c.require("the decoded bytes are right", repeats(d.data(), n / 4 * 3, data));
    }
}
static Reg r2("B04long", "every case", base_object_huge, 600);

static void fish_object_huge(Case &c) {
    Bytes k = c.bytes(1 + c.pick(56)), w = window(c, WIN);
    Blowfish o(k.data(), k.size());
    ref::Blowfish r(k);
    uint64_t n = huge(c, "Blowfish object", 1, roomy());
    bool enc = !c.enumerate(2);
    Repeated in(WIN, n);
    in.fill(w.data());
    SequentialData e = enc ? o.encrypt(in.p, n) : o.decrypt(in.p, n);
    uint64_t m = (n + 7) / 8 * 8;
    c.same("length", e.size(), [&] { return m; });
    Bytes we = r.buffer(w, enc);
    c.require("the contents are right", repeats(e.data(), n / 8 * 8, we));
    if (n % 8) {
        Bytes last(w.begin() + (ptrdiff_t)(n / 8 * 8 % WIN), w.begin() + (ptrdiff_t)(n / 8 * 8 % WIN + n % 8)), le = r.buffer(last, enc);
        c.same("last block", e.data() + n / 8 * 8, 8, [&] { return le; });
    }
}
static Reg r3("F03long", "every case", fish_object_huge, 600);

static void hex_huge(Case &c) {
    Bytes w = window(c, WIN);
    std::string t = ref::hex(w);
    int form = (int)c.enumerate(3);
    if (form == 0) {
        uint64_t n = huge(c, "reading hexadecimal text", 2, 2 * G4), m = n / 2;
        Repeated in(2 * WIN, n + 1), out(WIN, m);
        in.fill((const uint8_t *)t.data());
        in.p[n] = 0;
        size_t got = pgfe_hex_string_to_hash((const char *)in.p, out.p);
        c.same("returned length", got, [&] { return m; });
        c.require("the bytes are right", out.is(w.data(), m));
        c.require("nothing behind the output is written", out.clean());
    }
    else if (form == 2) {
        uint64_t n = huge(c, "utils::from_hex_string", 2, roomy()), m = n / 2;
        Repeated in(2 * WIN, n + 1);
        in.fill((const uint8_t *)t.data());
        in.p[n] = 0;
        std::unique_ptr<SequentialData> d(utils::sequential_data::from_hex_string((const char *)in.p));
        c.same("length", d->length(), [&] { return m; });
        c.require("the bytes are right", repeats(d->data(), m, w));
    }
    else {
        uint64_t n = huge(c, "writing hexadecimal text", 1);
        Repeated in(WIN, n), out(2 * WIN, 2 * n + 1);
        in.fill(w.data());
        size_t got = pgfe_hash_to_hex_string(in.p, n, (char *)out.p);
        c.same("returned length", got, [&] { return 2 * n; });
        c.require("the digits are right", out.is((const uint8_t *)t.data(), 2 * n) && !out.p[2 * n]);
        c.require("nothing behind the output is written", out.clean());
    }
}
static Reg r4("U01long", "every case", hex_huge, 600);

static void clean_huge(Case &c) {
    // Half of the characters of a window are digits. Its length is a multiple of pages, but not a power of two, so
    // that what is at places that are equal modulo 2^32 differs.
    const size_t per = 257 * 4096;
    static const uint64_t places[] = {1, 1 + (1ULL << 16), 1 + G2, 1 + G4, 1 + 3 * G2, 1 + (1ULL << 8)};
    Bytes w = window(c, per / 2);
    std::string t(per, 0), digits;
    Src s;
    s.seed(c.pick(1 << 30));
    for (uint64_t p : places) { // 'x' is part of a prefix in the second place only
        t[p % per] = c.pick(2) ? 'x' : 'X';
        if (c.pick(2) && !t[p % per - 1]) t[p % per - 1] = '0';
    }
    t[1] = '.';
    size_t d = per / 2;
    for (char x : t)
        if (x == '0') d--;
    size_t o = per - d;
    for (char x : t)
        if (x) o--;
    for (size_t i = 0; i < per; i++) {
        if (!t[i]) {
            if (s.draw(d + o) < d) t[i] = "0123456789abcdefABCDEF"[w[--d] % 22];
            else t[i] = " -:.,;gzGZ\nxX"[s.draw(i < 2 ? 11 : 13)], o--;
        }
        if (isxdigit((uint8_t)t[i])) digits += t[i];
    }
    bool count = c.enumerate(2);
    uint64_t n = huge(c, count ? "length of a hash" : "cleaning a text", 1, 2 * G4 + 20000);
    uint64_t m = n / per * (per / 2) + ref::hex_clean("  " + t.substr(0, n % per)).size();
    Repeated in(per, n + 1);
    in.fill((const uint8_t *)t.data());
    in.p[n] = 0;
    if (count) {
        size_t got = pgfe_hash_length((const char *)in.p);
        c.same("pgfe_hash_length", got, [&] { return (m + 1) / 2; });
        return;
    }
    Repeated out(per / 2 * 2, m + 1); // two windows of digits are whole pages
    size_t got = pgfe_hash_string_clean((const char *)in.p, (char *)out.p);
    c.same("returned length", got, [&] { return m; });
    digits += digits;
    c.require("the digits are right", out.is((const uint8_t *)digits.data(), m) && !out.p[m]);
    c.require("nothing behind the output is written", out.clean());
}
static Reg r5("U02long", "every case", clean_huge, 600);

static void sequence_huge(Case &c) {
    Bytes w = window(c, WIN);
    switch (c.enumerate(3)) {
    case 0: {
        uint64_t n = huge(c, "trims of a sequence", 1, roomy());
        uint64_t l = c.pick(5000), r = c.pick(5000);
        w[0] |= 1; // the ends of what is left
        std::unique_ptr<SequentialData> dp;
        {
            Repeated in(WIN, n);
            in.fill(w.data());
            dp.reset(new SequentialData(in.p, n));
        }
        SequentialData &d = *dp;
        c.require("the contents are right", d.size() == n && repeats(d.data(), n, w));
        memset(&d[0], 0, l);
        memset(&d[0] + n - r, 0, r);
        while (l < n && !d[l]) l++;
        while (r < n && !d[n - 1 - r]) r++;
        uint8_t first = d[l], last = d[n - 1 - r];
        SequentialData t = c.pick(2) ? d.trim() : d.trim_left().trim_right();
        c.same("length of the trimmed copy", t.size(), [&] { return n - l - r; });
        c.require("its contents", !memcmp(t.data(), d.data() + l, n - l - r) && t.front() == first && t.back() == last);
        d.trim_right_();
        c.same("length after trim_right_", d.size(), [&] { return n - r; });
        d.trim_left_();
        c.same("length after trim_left_", d.size(), [&] { return n - l - r; });
        c.require("the same as the copy", !memcmp(t.data(), d.data(), n - l - r));
        break;
    }
    case 1: {
        uint64_t n = huge(c, "views of a sequence", 1, roomy());
        std::unique_ptr<SequentialData> d;
        {
            Repeated in(WIN, n);
            in.fill(w.data());
            if (c.pick(2)) d.reset(new SequentialData(in.p, n));
            else d.reset(utils::to_sequential_data(in.p, n));
        }
        c.same("length()", d->length(), [&] { return n; });
        size_t k = 0;
        const pgfe_encode_t *q = d->to_pgfe_seq(k);
        c.same("length from to_pgfe_seq", k, [&] { return n; });
        c.require("to_pgfe_seq", repeats(q, n, w));
        std::string s = d->to_str(false);
        c.same("length of to_str", s.size(), [&] { return n; });
        c.require("to_str", repeats((const uint8_t *)s.data(), n, w));
        break;
    }
    default: {
        for (auto &x : w) x = x ? x : 7;
        uint64_t n = huge(c, "sequence of a C string", 1, roomy());
        Repeated in(WIN, n + 1);
        in.fill(w.data());
        in.p[n] = 0;
        SequentialData d((const char *)in.p);
        c.same("length()", d.length(), [&] { return n; });
        c.require("contents", repeats(d.data(), n, w));
    }
    }
}
static Reg r6("U03long", "every case", sequence_huge, 600);
