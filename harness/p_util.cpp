// U01 U02 U03 U04: hexadecimal text, byte sequences, algorithm names
#include "common.hpp"
#include "libpgfe/generic.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/utils.h"
#include "libpgfe/utils.hpp"
#include <fcntl.h>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
using namespace api;
using namespace gen;
using libpgfe::SequentialData;
namespace lu = libpgfe::utils;

namespace {
bool hexdigit(char ch) { return (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F'); }
bool isx(char ch) { return ch == 'x' || ch == 'X'; }
// An x in second place after something that is not 0 is outside the domain
bool in_domain(const std::string &t) { return t.size() < 2 || !isx(t[1]) || t[0] == '0'; }
char other_char(Case &c) {
    for (int i = 0; i < 10; i++) {
        char ch;
        switch (c.weighted({4, 3, 2, 3})) {
        case 0: ch = " :-\n\t.,;_/hHxXgGzZ@`"[c.pick(20)]; break;
        case 1: ch = (char)(1 + c.pick(255)); break;
        case 2: ch = (char)(0x80 + c.pick(128)); break;
        default: ch = "/:@G`g"[c.pick(6)]; // next to the digits and letters
        }
        if (!hexdigit(ch)) return ch;
    }
    return ' ';
}
std::string hex_text(Case &c, size_t digits, std::string &how) {
    std::string t;
    Src s;
    s.seed(c.pick(1 << 24));
    int lc = (int)c.pick(3);
    for (size_t i = 0; i < digits; i++) {
        static const char lo[] = "0123456789abcdef", up[] = "0123456789ABCDEF";
        size_t v = s.draw(16);
        t += lc == 0 || (lc == 2 && s.draw(2)) ? lo[v] : up[v];
    }
    how += lc == 0 ? " lower case" : lc == 1 ? " upper case" : " mixed case";
    int m = c.chance(1, 60) ? 3 : c.weighted({5, 3, 3});
    if (m == 3) { // a long run
        size_t cnt = c.pick(6) ? 200 + c.pick(200) : 65000 + c.pick(6000);
        std::string s(1 + c.pick(5), 0), run;
        for (auto &x : s) x = other_char(c);
        while (run.size() < cnt) run += s;
        run.resize(cnt);
        t.insert(c.pick(t.size() + 1), run);
        how += " with a long run of other characters";
    }
    else if (m == 1) { // separated groups
        char sep = other_char(c);
        size_t w = 1 + c.pick(8);
        std::string r;
        for (size_t i = 0; i < t.size(); i += w) {
            if (i) r += sep;
            r += t.substr(i, w);
        }
        t = r;
        how += " separated";
    }
    else if (m == 2) {
        int k = 1 + (int)c.pick(6);
        while (k--) t.insert(c.pick(t.size() + 1), 1, other_char(c));
        how += " with other characters";
    }
    if (c.chance(1, 3)) t = (c.pick(2) ? "0X" : "0x") + t, how += " prefixed";
    if (c.chance(1, 4)) t += "h", how += " suffixed";
    return t;
}
size_t util_len(Case &c) {
    if (c.deep == Case::BIG)
        if (size_t n = c.big(64)) return n;
    if (c.deep == Case::LIFE) return c.len(16, 300);
    switch (c.weighted({5, 4, 2, 1})) {
    case 0: return c.pick(9);
    case 1: return c.pick(80);
    case 2: return c.len(64, 3000);
    default: return c.len(4096, 140000);
    }
}
void check_print(Case &c, const Bytes &b) {
    int fd = memfd_create("out", 0);
    if (fd < 0) throw std::bad_alloc();
    fflush(stdout);
    int save = dup(1);
    dup2(fd, 1);
    c.op();
    pgfe_print_hash(b.data(), b.size());
    fflush(stdout);
    dup2(save, 1);
    close(save);
    size_t n = (size_t)lseek(fd, 0, SEEK_END);
    std::string s(n, 0);
    if (n && pread(fd, &s[0], n, 0) != (ssize_t)n) throw std::bad_alloc();
    close(fd);
    c.same("printed digits", s, [&] { return ref::hex(b); });
}
} // namespace

PROP_BODY(U01, "the byte string or the text is not empty") {
    int what = c.weighted({3, 5, 2, 2, 2});
    if (what == 0 || what == 2 || what == 3) {
        Bytes b = c.bytes(util_len(c));
        if (!b.empty()) c.nontrivial();
        c.note("write %s", show(b).c_str());
        if (what == 2 && c.in_shared) {
            c.label("print");
            check_print(c, b);
            return;
        }
        if (what == 3) {
            c.label("hex_str, and back");
            SequentialData d = seq(b);
            c.op();
            std::string t = d.hex_str();
            c.same("hex_str", t, [&] { return ref::hex(b); });
            c.require("the sequence is unchanged", bytes_of(d) == b);
            c.op();
            std::unique_ptr<SequentialData> r(lu::sequential_data::from_hex_string(t));
            Bytes g = bytes_of(*r);
            c.same("bytes read back", g.data(), g.size(), [&] { return b; });
            return;
        }
        c.label("write");
        In in(c, b);
        Out o(c, 2 * b.size() + 1);
        c.op();
        size_t n = pgfe_hash_to_hex_string(in.u8(), b.size(), o.cs());
        o.check();
        in.verify();
        c.same("returned length", n, [&] { return (uint64_t)2 * b.size(); });
        c.same("digits and terminator", o.u8(), 2 * b.size() + 1, [&] {
            std::string e = ref::hex(b);
            Bytes r(e.begin(), e.end());
            r.push_back(0);
            return r;
        });
        return;
    }
    std::string how, t = hex_text(c, util_len(c) * (1 + c.pick(2)), how);
    if (!in_domain(t)) throw Discard();
    size_t digits = ref::hex_clean(t).size();
    if (!t.empty()) c.nontrivial();
    c.label("read, %s%s", digits % 2 ? "odd" : "even", how.find("prefixed") != how.npos ? ", prefix" : "");
    c.note("read %s%s", show_text(t).c_str(), how.c_str());
    if (what == 4) {
        c.op();
        std::unique_ptr<SequentialData> r;
        if (c.chance(1, 2)) {
            std::string a = t;
            r.reset(lu::sequential_data::from_hex_string(a));
            c.require("the argument is unchanged", a == t);
        }
        else {
            In in(c, t);
            r.reset(lu::sequential_data::from_hex_string(in.cs()));
            in.verify();
        }
        Bytes g = bytes_of(*r);
        c.same("bytes read", g.data(), g.size(), [&] { return ref::hex_parse(t); });
        return;
    }
    In in(c, t);
    size_t cap = (digits + 1) / 2 + 1;
    Out o(c, cap);
    c.op();
    size_t n = pgfe_hex_string_to_hash(in.cs(), o.u8());
    o.check();
    in.verify();
    if (n > cap) c.fail("the returned length is %zu for %zu digits", n, digits);
    c.same("bytes read", o.u8(), n, [&] { return ref::hex_parse(t); });
}
PROP_BIG(U01)

PROP_BODY(U02, "the text holds digits and other characters") {
    std::string how, t;
    if (c.chance(1, 4)) t = c.text(util_len(c));
    else t = hex_text(c, util_len(c), how);
    if (!in_domain(t)) throw Discard();
    size_t digits = ref::hex_clean(t).size();
    c.note("text %s", show_text(t).c_str());
    if (digits && digits < t.size()) c.nontrivial();
    c.label("%s", t.empty() ? "empty" : !digits ? "no digits" : digits == t.size() ? "digits only" : "mixed");
    auto terminated = [&] {
        std::string e = ref::hex_clean(t);
        Bytes r(e.begin(), e.end());
        r.push_back(0);
        return r;
    };
    size_t cap = t.size() + 1;
    switch (c.pick(4)) {
    case 0: {
        In in(c, t);
        Out o(c, cap);
        c.op();
        size_t n = pgfe_hash_string_clean(in.cs(), o.cs());
        o.check();
        in.verify();
        c.same("returned length", n, [&] { return (uint64_t)digits; });
        if (n > t.size()) c.fail("the returned length is %zu", n);
        c.same("cleaned text", o.u8(), n + 1, terminated);
        In in2(c, std::string(o.cs(), n));
        Out o2(c, n + 1);
        c.op();
        size_t m = pgfe_hash_string_clean(in2.cs(), o2.cs());
        o2.check();
        c.same("length after cleaning twice", m, [&] { return (uint64_t)digits; });
        if (m > n) c.fail("the returned length is %zu", m);
        c.same("text cleaned twice", o2.u8(), m + 1, terminated);
        break;
    }
    case 1: {
        Out o(c, cap);
        memcpy(o.u8(), t.c_str(), cap);
        c.op();
        size_t n = pgfe_hash_string_clean_(o.cs());
        o.check();
        c.same("returned length", n, [&] { return (uint64_t)digits; });
        if (n > t.size()) c.fail("the returned length is %zu", n);
        c.same("text cleaned in place", o.u8(), n + 1, terminated);
        c.op();
        size_t m = pgfe_hash_string_clean_(o.cs());
        c.same("length after cleaning twice", m, [&] { return (uint64_t)digits; });
        if (m > t.size()) c.fail("the returned length is %zu", m);
        c.same("text cleaned twice in place", o.u8(), m + 1, terminated);
        break;
    }
    case 2: { // the same buffer passed twice
        Out o(c, cap);
        memcpy(o.u8(), t.c_str(), cap);
        c.op();
        size_t n = pgfe_hash_string_clean(o.cs(), o.cs());
        o.check();
        c.same("returned length", n, [&] { return (uint64_t)digits; });
        if (n > t.size()) c.fail("the returned length is %zu", n);
        c.same("text cleaned onto itself", o.u8(), n + 1, terminated);
        break;
    }
    default: {
        In in(c, t);
        c.op();
        size_t n = pgfe_hash_length(in.cs());
        in.verify();
        c.same("pgfe_hash_length", n, [&] { return (uint64_t)(digits + 1) / 2; });
    }
    }
}
PROP_BIG(U02)

namespace {
Bytes trimmed(Bytes b, bool left, bool right) {
    if (left) {
        size_t i = 0;
        while (i < b.size() && !b[i]) i++;
        b.erase(b.begin(), b.begin() + (ptrdiff_t)i);
    }
    if (right) while (!b.empty() && !b.back()) b.pop_back();
    return b;
}
Bytes seq_data(Case &c) {
    Bytes b = c.bytes(util_len(c));
    switch (c.weighted({5, 3, 2})) { // zero bytes to trim
    case 1: {
        size_t l = c.pick(5), r = c.pick(5);
        b.insert(b.begin(), l, 0);
        b.insert(b.end(), r, 0);
        break;
    }
    case 2:
        for (auto &x : b) if (x & 3) x = 0;
        break;
    default:;
    }
    return b;
}
} // namespace

PROP_BODY(U03, "a sequence that is not empty was trimmed, copied or moved and looked at") {
    const int N = 3;
    std::unique_ptr<Place<SequentialData>> p[N];
    Bytes model[N];
    bool have[N] = {false, false, false}, viewed = false, changed = false;
    for (auto &x : p) x.reset(new Place<SequentialData>(c));
    size_t steps = c.steps(3, 18);
    for (size_t i = 0; i < steps; i++) {
        size_t k = c.pick(N);
        int what = c.weighted({5, 3, 4, 3, 4, 1});
        if (!have[k] || (c.deep == Case::LIFE && model[k].size() > 600)) what = 0;
        if (what == 1 && !have[(k + 1) % N]) what = 0;
        switch (what) {
        case 0: { // construct
            Bytes b = seq_data(c);
            int f = c.weighted({3, 2, 3, 1, 2, 1, 2, 2});
            if (f == 1 || f == 5) b = cut_at_nul(b);
            if (f == 3) b.clear();
            c.note("%zu: constructor %d from %s", k, f, show(b).c_str());
            c.op();
            std::unique_ptr<SequentialData> h;
            std::string s = gen::str(b);
            In ib(c, b), is(c, s);
            switch (f) {
            case 0: p[k]->make(ib.u8(), b.size()); break;
            case 1: p[k]->make(is.cs()); break;
            case 2: p[k]->make(s); break;
            case 3: p[k]->make(); break;
            case 4: h.reset(lu::to_sequential_data(ib.u8(), b.size())); break;
            case 5: h.reset(lu::to_sequential_data(is.cs())); break;
            case 6: h.reset(lu::to_sequential_data(s)); break;
            default: {
                std::string hex = ref::hex(b);
                if (c.pick(2)) h.reset(lu::sequential_data::from_hex_string(hex));
                else h.reset(lu::sequential_data::from_hex_string(hex.c_str()));
            }
            }
            if (h) p[k]->make(*h);
            ib.verify();
            is.verify();
            c.require("the argument is unchanged", s == gen::str(b));
            c.label("constructor %d", f);
            model[k] = b;
            have[k] = true;
            break;
        }
        case 1: { // from another one
            size_t s = (k + 1) % N;
            int f = (int)c.pick(3);
            c.note("%zu: %s of %zu", k, f == 0 ? "copy" : f == 1 ? "copy by pointer" : "move", s);
            c.op();
            SequentialData &src = **p[s];
            if (f == 0) p[k]->make((const SequentialData &)src);
            else if (f == 1) p[k]->make((const SequentialData *)&src);
            else p[k]->make(std::move(src));
            model[k] = model[s];
            if (f == 2) { // what is left of the source is unspecified
                p[s]->destroy();
                have[s] = false;
            }
            if (!model[k].empty()) changed = true;
            break;
        }
        case 2: { // trim in place
            int f = (int)c.pick(3);
            c.note("%zu: trim%s_", k, f == 0 ? "" : f == 1 ? "_left" : "_right");
            c.op();
            SequentialData &o = **p[k];
            if (f == 0) o.trim_();
            else if (f == 1) o.trim_left_();
            else o.trim_right_();
            if (!model[k].empty() && trimmed(model[k], true, true).empty()) c.label("trim of zero bytes only");
            if (!model[k].empty()) changed = true;
            model[k] = trimmed(model[k], f != 2, f != 1);
            break;
        }
        case 3: { // trim into a copy
            int f = (int)c.pick(3);
            c.note("%zu: trim%s", k, f == 0 ? "" : f == 1 ? "_left" : "_right");
            c.op();
            SequentialData &o = **p[k];
            SequentialData t = f == 0 ? o.trim() : f == 1 ? o.trim_left() : o.trim_right();
            Bytes g = bytes_of(t);
            c.same("trimmed copy", g.data(), g.size(), [&] { return trimmed(model[k], f != 2, f != 1); });
            if (!model[k].empty()) changed = true;
            break;
        }
        case 4: { // views
            SequentialData &o = **p[k];
            int f = (int)c.pick(6);
            c.note("%zu: view %d", k, f);
            c.op();
            switch (f) {
            case 0: c.same("to_str", o.to_str(), [&] { return gen::str(model[k]); }); break;
            case 1: c.same("to_str(false)", o.to_str(false), [&] { return gen::str(model[k]); }); break;
            case 2: c.same("hex_str", o.hex_str(), [&] { return ref::hex(model[k]); }); break;
            case 3: {
                const pgfe_encode_t *q = o.to_pgfe_seq();
                c.same("to_pgfe_seq", q, model[k].size(), [&] { return model[k]; });
                break;
            }
            case 4: {
                size_t n = 77;
                const pgfe_encode_t *q = o.to_pgfe_seq(n);
                c.same("length from to_pgfe_seq", n, [&] { return (uint64_t)model[k].size(); });
                if (n == model[k].size()) c.same("to_pgfe_seq", q, n, [&] { return model[k]; });
                break;
            }
            default: {
                std::ostringstream os;
                os << o;
                c.same("stream", os.str(), [&] { return gen::str(model[k]); });
            }
            }
            if (!model[k].empty()) viewed = true;
            break;
        }
        default: { // as a string of bytes
            Bytes b = seq_data(c);
            c.note("%zu: append %s", k, show(b).c_str());
            (*p[k])->append(b.data(), b.size());
            model[k].insert(model[k].end(), b.begin(), b.end());
        }
        }
        if (have[k]) {
            Bytes g = bytes_of(**p[k]);
            c.same("contents", g.data(), g.size(), [&] { return model[k]; });
            c.same("length()", (*p[k])->length(), [&] { return (uint64_t)model[k].size(); });
        }
    }
    if (viewed && changed) c.nontrivial();
}
PROP_BIG(U03)
PROP_LIFE(U03)

namespace {
const char *const NAMES[][2] = {
    {"md5", "MD5"}, {"sha1", "SHA1"}, {"sha224", "SHA224"}, {"sha256", "SHA256"}, {"sha384", "SHA384"}, {"sha512", "SHA512"},
    {"sha512_224", "SHA512_224"}, {"sha512_256", "SHA512_256"}, {"sha3_224", "SHA3_224"}, {"sha3_256", "SHA3_256"},
    {"sha3_384", "SHA3_384"}, {"sha3_512", "SHA3_512"}, {"rawshake128", "RawSHAKE128"}, {"shake128", "SHAKE128"},
    {"rawshake256", "RawSHAKE256"}, {"shake256", "SHAKE256"}};
const size_t CONST_D[] = {
    PGFE_MD5_DIGEST_SIZE, PGFE_SHA1_DIGEST_SIZE, PGFE_SHA224_DIGEST_SIZE, PGFE_SHA256_DIGEST_SIZE, PGFE_SHA384_DIGEST_SIZE, PGFE_SHA512_DIGEST_SIZE,
    PGFE_SHA512_224_DIGEST_SIZE, PGFE_SHA512_256_DIGEST_SIZE, PGFE_SHA3_224_DIGEST_SIZE, PGFE_SHA3_256_DIGEST_SIZE, PGFE_SHA3_384_DIGEST_SIZE,
    PGFE_SHA3_512_DIGEST_SIZE, PGFE_RawSHAKE128_DIGEST_SIZE, PGFE_SHAKE128_DIGEST_SIZE, PGFE_RawSHAKE256_DIGEST_SIZE, PGFE_SHAKE256_DIGEST_SIZE};
const size_t CONST_B[] = {
    PGFE_MD5_BLOCK_SIZE, PGFE_SHA1_BLOCK_SIZE, PGFE_SHA224_BLOCK_SIZE, PGFE_SHA256_BLOCK_SIZE, PGFE_SHA384_BLOCK_SIZE, PGFE_SHA512_BLOCK_SIZE,
    PGFE_SHA512_224_BLOCK_SIZE, PGFE_SHA512_256_BLOCK_SIZE, PGFE_SHA3_224_BLOCK_SIZE, PGFE_SHA3_256_BLOCK_SIZE, PGFE_SHA3_384_BLOCK_SIZE,
    PGFE_SHA3_512_BLOCK_SIZE, PGFE_RawSHAKE128_BLOCK_SIZE, PGFE_SHAKE128_BLOCK_SIZE, PGFE_RawSHAKE256_BLOCK_SIZE, PGFE_SHAKE256_BLOCK_SIZE};

int lookup(Case &c, const std::string &s, int form) { // harness number, or -1 for out_of_range
    c.op();
    try {
        pgfe_algorithm_choice a;
        if (form == 0) {
            In in(c, s);
            a = libpgfe::_algstr(in.cs());
        }
        else if (form == 1) a = libpgfe::_algstr(s);
        else a = libpgfe::operator"" _pgfe_alg(s.c_str(), s.size());
        int h = harness_alg(a);
        return h < 0 ? 99 : h;
    }
    catch (std::out_of_range &) {
        return -1;
    }
}
} // namespace

PROP_BODY(U04, "every case: a name is looked up, or the sizes of an algorithm are compared") {
    c.nontrivial();
    int what = c.weighted({3, 5, 2});
    if (what == 0) {
        int a = any_alg(c), sp = (int)c.pick(2), form = (int)c.pick(3);
        c.note("name %s, form %d", NAMES[a][sp], form);
        c.label("a name");
        c.same("algorithm selected", (uint64_t)(int64_t)lookup(c, NAMES[a][sp], form), [&] { return (uint64_t)a; });
        return;
    }
    if (what == 1) {
        std::string s;
        switch (c.weighted({6, 2, 2})) {
        case 0: { // a changed name
            s = NAMES[c.pick(ref::A_COUNT)][c.pick(2)];
            int k = 1 + (int)c.pick(2);
            while (k--) {
                size_t at = c.pick(s.size() + 1);
                switch (c.pick(5)) {
                case 0: if (at < s.size()) s.erase(at, 1); break;
                case 1: s.insert(at, 1, (char)(1 + c.pick(255))); break;
                case 2: if (at < s.size()) s[at] = lower(s[at]) != s[at] ? lower(s[at]) : upper(s[at]); break;
                case 3: if (at < s.size()) s[at] = "_- 0123456789aA"[c.pick(15)]; break;
                default: s.insert(at, 1, "_- 0123456789aA"[c.pick(15)]);
                }
            }
            break;
        }
        case 1: s = c.text(c.pick(14)); break;
        default: {
            static const char *const t[] = {"", "SHA", "sha-1", "SHA-256", "sha2_256", "sha3-256", "SHA512/256", "keccak256", "blake2b", "MD4", "md5 ", " md5",
                                            "sha0", "RAWSHAKE128", "Rawshake128", "rawSHAKE256", "Shake128", "sha3", "sha512_384", "sha3_128", "hmac", "SHA_1"};
            s = t[c.pick(22)];
        }
        }
        int want = -1;
        for (int a = 0; a < ref::A_COUNT; a++)
            if (s == NAMES[a][0] || s == NAMES[a][1]) want = a;
        int form = (int)c.pick(3);
        if (form && c.chance(1, 8)) { // with a zero byte
            size_t at = c.pick(s.size() + 1);
            s.insert(at, 1, 0);
            c.label("a text with a zero byte");
            want = -1;
        }
        c.note("text %s, form %d", show_text(s).c_str(), form);
        c.label("%s", want < 0 ? "another text" : "a name");
        c.same("algorithm selected", (uint64_t)(int64_t)lookup(c, s, form), [&] { return (uint64_t)(int64_t)want; });
        return;
    }
    int a = any_alg(c);
    pgfe_algorithm_choice ch = hashes[a].choice;
    c.note("sizes of %s", hashes[a].name);
    c.label("sizes");
    c.op();
    auto at = [&](const std::unordered_map<pgfe_algorithm_choice, size_t> &m) -> uint64_t {
        auto i = m.find(ch);
        return i == m.end() ? ~0ULL : i->second;
    };
    uint64_t d = at(libpgfe::pgfe_digest_length), b = at(libpgfe::pgfe_block_length);
    c.same("table of digest lengths", d, [&] { return (uint64_t)ref::digest_size(a); });
    c.same("table of block lengths", b, [&] { return (uint64_t)ref::block_size(a); });
    c.same("digest size constant", CONST_D[a], [&] { return d; });
    c.same("block size constant", CONST_B[a], [&] { return b; });
    if (d > 1000 || b > 1000) c.fail("absurd sizes %llu %llu", (unsigned long long)d, (unsigned long long)b);
    libpgfe::HashEncoder he(ch);
    c.same("digest size of the encoder", he.digest_size(), [&] { return d; });
    c.same("block size of the encoder", he.block_size(), [&] { return b; });
    const SequentialData *dg = he.get_digest();
    c.same("length of the digest", dg->length(), [&] { return d; });
    if (ref::is_xof(a)) return;
    // the digest really has that many bytes
    Bytes m = c.bytes(c.pick(200));
    std::vector<bool> touched(200, false);
    for (int v = 0; v < 4; v++) { // several messages and two prior contents: a byte never written keeps the prior one
        Bytes o(200, (uint8_t)(v & 1 ? 0xff : 0));
        Bytes mm = m;
        mm.push_back((uint8_t)v);
        hashes[a].encode(mm.data(), mm.size(), o.data(), 0);
        for (size_t i = 0; i < 200; i++) if (o[i] != (v & 1 ? 0xff : 0)) touched[i] = true;
    }
    for (size_t i = d; i < 200; i++) if (touched[i]) c.fail("the digest reaches byte %zu, not %llu", i, (unsigned long long)d);
    if (!touched[d - 1] && !touched[d - 2]) c.fail("the digest is shorter than %llu", (unsigned long long)d);
    libpgfe::HMACEncoder me(ch, "key");
    c.same("digest size of the MAC encoder", me.digest_size(), [&] { return d; });
    c.same("block size of the MAC encoder", me.block_size(), [&] { return b; });
    // a key of one block is used as it is, a longer one is hashed
    Bytes k = c.bytes(b + 1), kh(d), mac1(d), mac2(d);
    k[b] |= 1;
    k[0] |= 1;
    for (size_t len = b; len <= b + 1; len++) {
        hashes[a].encode(k.data(), len, kh.data(), 0);
        hmacs[a].oneshot(k.data(), len, m.data(), m.size(), mac1.data());
        hmacs[a].oneshot(kh.data(), d, m.data(), m.size(), mac2.data());
        c.require(len == b ? "a key of one block is not hashed" : "a key longer than the block is hashed", (mac1 == mac2) == (len > b));
    }
}
