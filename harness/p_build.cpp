// X04: programs that use the library, of several C and C++ files with any of its headers in any order
#include <algorithm>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "engine.hpp"

using namespace pbt;
extern char **environ;
namespace {
struct Header
{
    const char *path;
    bool cpp;
};
const Header HEADERS[] = {
    {"generic.h", false}, {"algorithm-choice.h", false}, {"hashes.h", false}, {"utils.h", false}, {"version.h", false},
    {"base_encoding/base16.h", false}, {"base_encoding/base32.h", false}, {"base_encoding/base64.h", false}, {"fishes/blowfish.h", false},
    {"hashes/md5.h", false}, {"hashes/sha1.h", false}, {"hashes/sha2.h", false}, {"hashes/sha3.h", false}, {"hmac/hmac.h", false},
    {"otp/hotp.h", false}, {"otp/totp.h", false}, {"otp/types.h", false},
    {"abstract_encoder.hpp", true}, {"abstract_symmetric_crypter.hpp", true}, {"algorithm_selectable.hpp", true}, {"exceptions.hpp", true},
    {"generic.hpp", true}, {"sequential_data.hpp", true}, {"utils.hpp", true}, {"base_encoding/abstract_base_encoding.hpp", true},
    {"base_encoding/base16.hpp", true}, {"base_encoding/base32.hpp", true}, {"base_encoding/base64.hpp", true}, {"fishes/blowfish.hpp", true},
    {"hashes/abstract_hash_encoder.hpp", true}, {"hashes/hash_encoder.hpp", true}, {"hmac/hmac_encoder.hpp", true},
    {"otp/abstract_otp.hpp", true}, {"otp/hotp.hpp", true}, {"otp/totp.hpp", true}};
const int NH = sizeof HEADERS / sizeof *HEADERS, NC = 17;
const char *const STD_C[] = {"stddef.h", "stdint.h", "stdio.h", "stdlib.h", "string.h", "time.h", "limits.h", "ctype.h"};
const char *const STD_CPP[] = {"string", "vector", "memory", "iostream", "cstring", "mutex", "unordered_map", "cstdint"};
// the functions that the headers promise
const struct
{
    const char *header, *functions;
} FUNCTIONS[] = {
    {"base_encoding/base16.h", "pgfe_encode_base16 pgfe_decode_base16"},
    {"base_encoding/base32.h", "pgfe_encode_base32 pgfe_encode_base32hex pgfe_decode_base32 pgfe_decode_base32hex"},
    {"base_encoding/base64.h", "pgfe_encode_base64 pgfe_encode_base64_url pgfe_decode_base64"},
    {"fishes/blowfish.h", "pgfe_blowfish_init pgfe_blowfish_encrypt_unit pgfe_blowfish_decrypt_unit pgfe_blowfish_encrypt pgfe_blowfish_decrypt"},
    {"hashes/md5.h", "pgfe_md5_encode pgfe_md5_encode_f pgfe_md5_encode_default pgfe_md5_encode_multiple pgfe_md5_init pgfe_md5_update pgfe_md5_digest"},
    {"hashes/sha1.h", "pgfe_sha1_encode pgfe_sha1_encode_f pgfe_sha1_encode_default pgfe_sha1_encode_multiple pgfe_sha1_init pgfe_sha1_update pgfe_sha1_digest"},
    {"hashes/sha2.h", "pgfe_sha224_encode pgfe_sha224_encode_f pgfe_sha224_encode_default pgfe_sha224_encode_multiple pgfe_sha224_init pgfe_sha224_update pgfe_sha224_digest pgfe_sha256_encode pgfe_sha256_encode_f pgfe_sha256_encode_default pgfe_sha256_encode_multiple pgfe_sha256_init pgfe_sha256_update pgfe_sha256_digest pgfe_sha384_encode pgfe_sha384_encode_f pgfe_sha384_encode_default pgfe_sha384_encode_multiple pgfe_sha384_init pgfe_sha384_update pgfe_sha384_digest pgfe_sha512_encode pgfe_sha512_encode_f pgfe_sha512_encode_default pgfe_sha512_encode_multiple pgfe_sha512_init pgfe_sha512_update pgfe_sha512_digest pgfe_sha512_224_encode pgfe_sha512_224_encode_f pgfe_sha512_224_encode_default pgfe_sha512_224_encode_multiple pgfe_sha512_224_init pgfe_sha512_224_update pgfe_sha512_224_digest pgfe_sha512_256_encode pgfe_sha512_256_encode_f pgfe_sha512_256_encode_default pgfe_sha512_256_encode_multiple pgfe_sha512_256_init pgfe_sha512_256_update pgfe_sha512_256_digest"},
    {"hashes/sha3.h", "pgfe_sha3_224_encode pgfe_sha3_224_encode_f pgfe_sha3_224_encode_default pgfe_sha3_224_encode_multiple pgfe_sha3_224_init pgfe_sha3_224_update pgfe_sha3_224_digest pgfe_sha3_256_encode pgfe_sha3_256_encode_f pgfe_sha3_256_encode_default pgfe_sha3_256_encode_multiple pgfe_sha3_256_init pgfe_sha3_256_update pgfe_sha3_256_digest pgfe_sha3_384_encode pgfe_sha3_384_encode_f pgfe_sha3_384_encode_default pgfe_sha3_384_encode_multiple pgfe_sha3_384_init pgfe_sha3_384_update pgfe_sha3_384_digest pgfe_sha3_512_encode pgfe_sha3_512_encode_f pgfe_sha3_512_encode_default pgfe_sha3_512_encode_multiple pgfe_sha3_512_init pgfe_sha3_512_update pgfe_sha3_512_digest pgfe_rawshake128_encode pgfe_rawshake128_encode_f pgfe_rawshake128_encode_default pgfe_rawshake128_encode_multiple pgfe_rawshake128_init pgfe_rawshake128_update pgfe_rawshake128_digest pgfe_shake128_encode pgfe_shake128_encode_f pgfe_shake128_encode_default pgfe_shake128_encode_multiple pgfe_shake128_init pgfe_shake128_update pgfe_shake128_digest pgfe_rawshake256_encode pgfe_rawshake256_encode_f pgfe_rawshake256_encode_default pgfe_rawshake256_encode_multiple pgfe_rawshake256_init pgfe_rawshake256_update pgfe_rawshake256_digest pgfe_shake256_encode pgfe_shake256_encode_f pgfe_shake256_encode_default pgfe_shake256_encode_multiple pgfe_shake256_init pgfe_shake256_update pgfe_shake256_digest"},
    {"hmac/hmac.h", "pgfe_hmac_md5_init pgfe_hmac_sha1_init pgfe_hmac_sha224_init pgfe_hmac_sha256_init pgfe_hmac_sha384_init pgfe_hmac_sha512_init pgfe_hmac_sha512_224_init pgfe_hmac_sha512_256_init pgfe_hmac_sha3_224_init pgfe_hmac_sha3_256_init pgfe_hmac_sha3_384_init pgfe_hmac_sha3_512_init pgfe_hmac_md5_set_key pgfe_hmac_sha1_set_key pgfe_hmac_sha224_set_key pgfe_hmac_sha256_set_key pgfe_hmac_sha384_set_key pgfe_hmac_sha512_set_key pgfe_hmac_sha512_224_set_key pgfe_hmac_sha512_256_set_key pgfe_hmac_sha3_224_set_key pgfe_hmac_sha3_256_set_key pgfe_hmac_sha3_384_set_key pgfe_hmac_sha3_512_set_key pgfe_hmac_md5_update pgfe_hmac_sha1_update pgfe_hmac_sha224_update pgfe_hmac_sha256_update pgfe_hmac_sha384_update pgfe_hmac_sha512_update pgfe_hmac_sha512_224_update pgfe_hmac_sha512_256_update pgfe_hmac_sha3_224_update pgfe_hmac_sha3_256_update pgfe_hmac_sha3_384_update pgfe_hmac_sha3_512_update pgfe_hmac_md5_digest pgfe_hmac_sha1_digest pgfe_hmac_sha224_digest pgfe_hmac_sha256_digest pgfe_hmac_sha384_digest pgfe_hmac_sha512_digest pgfe_hmac_sha512_224_digest pgfe_hmac_sha512_256_digest pgfe_hmac_sha3_224_digest pgfe_hmac_sha3_256_digest pgfe_hmac_sha3_384_digest pgfe_hmac_sha3_512_digest pgfe_hmac pgfe_hmac_md5 pgfe_hmac_sha1 pgfe_hmac_sha224 pgfe_hmac_sha256 pgfe_hmac_sha384 pgfe_hmac_sha512 pgfe_hmac_sha512_224 pgfe_hmac_sha512_256 pgfe_hmac_sha3_224 pgfe_hmac_sha3_256 pgfe_hmac_sha3_384 pgfe_hmac_sha3_512"},
    {"otp/hotp.h", "pgfe_hotp_generic pgfe_hotp pgfe_hotp_4digits pgfe_hotp_6digits pgfe_hotp_8digits"},
    {"otp/totp.h", "pgfe_totp_generic pgfe_totp pgfe_totp_4digits pgfe_totp_6digits pgfe_totp_8digits"},
    {"utils.h", "pgfe_hash_to_hex_string pgfe_hex_string_to_hash pgfe_print_hash pgfe_hash_string_clean pgfe_hash_string_clean_ pgfe_hash_length"},};
// names in the C functions, header, name in the sizes' macros and in the enumeration
struct AlgName
{
    const char *c, *header, *choice;
};
const AlgName ALG[ref::A_COUNT] = {
    {"md5", "hashes/md5.h", "MD5"}, {"sha1", "hashes/sha1.h", "SHA1"}, {"sha224", "hashes/sha2.h", "SHA224"}, {"sha256", "hashes/sha2.h", "SHA256"},
    {"sha384", "hashes/sha2.h", "SHA384"}, {"sha512", "hashes/sha2.h", "SHA512"}, {"sha512_224", "hashes/sha2.h", "SHA512_224"},
    {"sha512_256", "hashes/sha2.h", "SHA512_256"}, {"sha3_224", "hashes/sha3.h", "SHA3_224"}, {"sha3_256", "hashes/sha3.h", "SHA3_256"},
    {"sha3_384", "hashes/sha3.h", "SHA3_384"}, {"sha3_512", "hashes/sha3.h", "SHA3_512"}, {"rawshake128", "hashes/sha3.h", "RawSHAKE128"},
    {"shake128", "hashes/sha3.h", "SHAKE128"}, {"rawshake256", "hashes/sha3.h", "RawSHAKE256"}, {"shake256", "hashes/sha3.h", "SHAKE256"}};
// names that no header declares, so that they are a program's to use
const struct
{
    const char *name;
    bool data;
} OWN[] = {{"arrcpy", false}, {"arrinit", false}, {"ch2hex", false}, {"reverse", false}, {"transform", false}, {"unittostr", false}, {"encode_base_generic", false}, {"decode_base_generic", false},
           {"decode_base16_char", false}, {"decode_base32_char", false}, {"decode_base32hex_char", false}, {"decode_base64_char", false}, {"BASE16_ALPHABET", true}, {"BASE32_ALPHABET", true},
           {"BASE32_ALPHABET_EXTHEX", true}, {"BASE64_ALPHABET", true}, {"BASE64_ALPHABET_FS", true}, {"calc_periodic_counter", false}, {"curtime", false}, {"dynamically_truncate", false},
           {"otp_to_string", false}, {"keccak_init", false}, {"keccak_absorb_b1600", false}, {"keccak_squeeze_b1600", false}, {"md5_encode", false}, {"md5_decode", false}, {"md5_transform", false},
           {"sha224n256_digest", false}, {"sha224n256_padding", false}, {"sha256_process_block", false}, {"sha384n512_digest", false}, {"sha384n512_padding", false},
           {"sha384n512_process_block", false}, {"sha384n512_update", false}};
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string fmt(const char *f, ...) {
    char b[4096];
    va_list v;
    va_start(v, f);
    vsnprintf(b, sizeof b, f, v);
    va_end(v);
    return b;
}
std::string array(const Bytes &b) { // an initialiser; never empty
    std::string s = "{";
    for (uint8_t x : b) s += std::to_string(x) + ",";
    return s + "0}";
}
struct Unit
{
    bool cpp = false;
    std::vector<int> have; // library headers included
    std::string head, code, flags;
    bool has(const std::string &h) const {
        for (int i : have) {
            if (h == HEADERS[i].path) return true;
            if (h.compare(0, 7, "hashes/") == 0 && !strcmp(HEADERS[i].path, "hashes.h") && h.find(".hpp") == h.npos) return true;
        }
        return false;
    }
};
struct Tmp
{
    std::string d;
    Tmp() {
        const char *t = getenv("VERIF_TMP");
        std::string s = std::string(t && *t ? t : "/tmp") + "/x04.XXXXXX";
        std::vector<char> v(s.begin(), s.end());
        v.push_back(0);
        if (!mkdtemp(v.data())) throw std::bad_alloc();
        d = v.data();
    }
    ~Tmp() {
        if (DIR *q = opendir(d.c_str())) {
            while (dirent *e = readdir(q)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str());
            closedir(q);
        }
        rmdir(d.c_str());
    }
};
void spit(const std::string &p, const std::string &t) {
    FILE *f = fopen(p.c_str(), "w");
    if (!f || fwrite(t.data(), 1, t.size(), f) != t.size() || fclose(f)) throw std::bad_alloc();
}
std::string slurp(const std::string &p, size_t max) {
    std::string s(max, 0);
    FILE *f = fopen(p.c_str(), "r");
    s.resize(f ? fread(&s[0], 1, max, f) : 0);
    if (f) fclose(f);
    return s;
}
// Status of a command, whose output goes to a file. Whatever looks like trouble of the system, and not of the program, ends the case undecided.
int command(Case &c, const std::vector<std::string> &a, const std::string &out, const char *dir) {
    std::vector<char *> v;
    for (auto &s : a) v.push_back(const_cast<char *>(s.c_str()));
    v.push_back(nullptr);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    posix_spawn_file_actions_adddup2(&fa, 1, 2);
    std::vector<char *> env;
    std::string tmp = std::string("TMPDIR=") + dir;
    for (char **e = environ; *e; e++)
        if (strncmp(*e, "TMPDIR=", 7) && strncmp(*e, "CPATH", 5) && strncmp(*e, "C_INCLUDE", 9) && strncmp(*e, "CPLUS_INCLUDE", 13)) env.push_back(*e);
    env.push_back(const_cast<char *>(tmp.c_str()));
    env.push_back(nullptr);
    pid_t pid;
    int r = posix_spawn(&pid, v[0], &fa, nullptr, v.data(), env.data());
    posix_spawn_file_actions_destroy(&fa);
    if (r) throw std::bad_alloc();
    int st = 0;
    for (unsigned waited = 0;; waited++) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (w < 0 && errno != EINTR) throw std::bad_alloc();
        usleep(2000);
        if (waited % 500 == 499) c.op();
        if (waited > 150000) { // five minutes: not a verdict
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            throw std::bad_alloc();
        }
    }
    return st;
}
// run.py puts the path of the library beside the harness
const std::string &LIBRARY() {
    static std::string s;
    if (s.empty()) {
        char b[4096];
        ssize_t n = readlink("/proc/self/exe", b, sizeof b);
        if (n > 0) s = slurp(std::string(b, (size_t)n) + ".lib", 4096);
    }
    return s;
}

class Program
{
    Case &c;
    std::vector<Unit> u;
    std::vector<std::pair<int, std::string>> steps; // unit, what
    int nobj = 0;

    // a unit that has the header; -1 if there is none
    int with(const std::string &h, bool cpp_only = false) {
        std::vector<int> v;
        for (size_t i = 0; i < u.size(); i++) if (u[i].has(h) && (u[i].cpp || !cpp_only)) v.push_back((int)i);
        return v.empty() ? -1 : v[c.pick(v.size())];
    }
    void step(int unit, const std::string &body, const std::string &what) {
        u[unit].code += fmt("int step%zu(void) {\n", steps.size()) + body + "    return 0;\n}\n";
        steps.push_back({unit, what});
    }
    static std::string eq(const char *got, const Bytes &want) { return fmt("    { static const unsigned char w[] = %s; if (vp_ne(%s, w, %zu)) return 1; }\n", array(want).c_str(), got, want.size()); }
    static std::string eqs(const char *got, const std::string &want) { return fmt("    if (vp_nes(%s, \"%s\")) return 1;\n", got, want.c_str()); }
    static std::string in(const char *name, const Bytes &b) { return fmt("    static const unsigned char %s[] = %s;\n", name, array(b).c_str()); }
    Bytes msg(size_t max) {
        Bytes b = c.bytes(c.pick(max));
        return b;
    }
    bool c_hash() {
        int a = (int)c.pick(ref::A_COUNT), t = with(ALG[a].header);
        if (t < 0) return false;
        Bytes m = msg(200);
        std::string bits = ref::is_xof(a) ? fmt(", %zu", ref::digest_size(a) * 8) : "";
        step(t, in("m", m) + fmt("    unsigned char o[64];\n    pgfe_%s_encode(m, %zu, o%s);\n", ALG[a].c, m.size(), bits.c_str()) + eq("o", ref::hash(a, m)), fmt("hash with %s", ALG[a].c));
        return true;
    }
    bool c_shared_hash() { // one context, three steps that may lie in different files
        int a = (int)c.pick(ref::A_COUNT), t = with(ALG[a].header);
        if (t < 0) return false;
        const char *n = ALG[a].c;
        std::string g = fmt("shared%d", nobj++), type = fmt("struct pgfe_%s_ctx", n);
        Bytes m = msg(200), m2 = msg(200), all = m;
        all.insert(all.end(), m2.begin(), m2.end());
        std::string ext = fmt("    extern %s %s;\n", type.c_str(), g.c_str());
        u[t].code += fmt("%s %s;\n", type.c_str(), g.c_str());
        std::vector<bool> declared(u.size(), false);
        declared[t] = true;
        auto decl = [&](int i) {
            if (!declared[i]) u[i].code += ext;
            declared[i] = true;
        };
        int t1 = with(ALG[a].header), t2 = with(ALG[a].header), t3 = with(ALG[a].header);
        decl(t1), step(t1, in("m", m) + fmt("    pgfe_%s_init(&%s);\n    pgfe_%s_update(&%s, m, %zu);\n", n, g.c_str(), n, g.c_str(), m.size()), fmt("%s context: init, update", n));
        decl(t2), step(t2, in("m", m2) + fmt("    pgfe_%s_update(&%s, m, %zu);\n", n, g.c_str(), m2.size()), fmt("%s context: update", n));
        decl(t3), step(t3, fmt("    unsigned char o[64];\n    pgfe_%s_digest(&%s, o%s);\n", n, g.c_str(), ref::is_xof(a) ? fmt(", %zu", ref::digest_size(a) * 8).c_str() : "") + eq("o", ref::hash(a, all)),
                       fmt("%s context: digest", n));
        return true;
    }
    bool c_hmac() {
        int a = (int)c.pick(ref::A_FIXED), t = with("hmac/hmac.h");
        if (t < 0) return false;
        Bytes k = msg(150), m = msg(150);
        const char *n = ALG[a].c;
        std::string b = in("k", k) + in("m", m) + "    unsigned char o[64];\n";
        switch (c.pick(3)) {
        case 0: b += fmt("    pgfe_hmac(%s, k, %zu, m, %zu, o);\n", ALG[a].choice, k.size(), m.size()); break;
        case 1: b += fmt("    pgfe_hmac_%s(k, %zu, m, %zu, o);\n", n, k.size(), m.size()); break;
        default:
            b += fmt("    struct pgfe_hmac_%s_ctx x;\n    pgfe_hmac_%s_init(&x);\n    pgfe_hmac_%s_set_key(&x, k, %zu);\n    pgfe_hmac_%s_update(&x, m, %zu);\n    pgfe_hmac_%s_digest(&x, o);\n",
                     n, n, n, k.size(), n, m.size(), n);
        }
        step(t, b + eq("o", ref::hmac(a, k, m)), fmt("HMAC with %s", n));
        return true;
    }
    bool c_linkage() { // every function that a header declares is in the library, under the name that both languages look for
        auto &f = FUNCTIONS[c.pick(sizeof FUNCTIONS / sizeof *FUNCTIONS)];
        int t = with(f.header);
        if (t < 0) return false;
        std::string b = "    typedef void (*any)(void);\n    static any volatile p[] = {";
        const char *s = f.functions;
        size_t n = 0;
        while (*s) {
            size_t k = strcspn(s, " ");
            b += fmt("%s(any)(%.*s)", n++ ? ", " : "", (int)k, s);
            s += k + (s[k] == ' ');
        }
        step(t, b + fmt("};\n    for (int i = 0; i < %zu; i++) if (!p[i]) return 1;\n", n), fmt("all functions of %s", f.header));
        return true;
    }
    bool c_base() {
        static const char *const H[] = {"base_encoding/base16.h", "base_encoding/base32.h", "base_encoding/base32.h", "base_encoding/base64.h", "base_encoding/base64.h"};
        static const char *const N[] = {"base16", "base32", "base32hex", "base64", "base64_url"}, *const D[] = {"base16", "base32", "base32hex", "base64", "base64"};
        int b = (int)c.pick(ref::B_COUNT), t = with(H[b]);
        if (t < 0) return false;
        Bytes m = msg(60);
        std::string e = ref::encode(b, m);
        step(t, in("m", m) + fmt("    char o[300];\n    unsigned char d[300];\n    unsigned long n;\n    n = pgfe_encode_%s(m, %zu, o);\n    if (n != %zu) return 2;\n", N[b], m.size(), e.size()) + eqs("o", e) +
                    fmt("    if (pgfe_decode_%s(o, d) != %zu) return 3;\n", D[b], m.size()) + eq("d", m),
             N[b]);
        return true;
    }
    bool c_fish() {
        int t = with("fishes/blowfish.h");
        if (t < 0) return false;
        Bytes k = c.bytes(1 + c.pick(56)), m = msg(60);
        ref::Blowfish f(k);
        Bytes e = f.buffer(m, true);
        step(t, in("k", k) + in("m", m) + fmt("    static struct pgfe_blowfish_ctx x;\n    unsigned char o[80];\n    pgfe_blowfish_init(&x, k, %zu);\n    if (pgfe_blowfish_encrypt(&x, m, %zu, o) != %zu) return 2;\n", k.size(), m.size(), e.size()) + eq("o", e), "Blowfish");
        return true;
    }
    bool c_otp() {
        int a = 1 + (int)c.pick(ref::A_FIXED - 1), t = with("otp/hotp.h"), d = 1 + (int)c.pick(9);
        if (t < 0) return false;
        Bytes k = msg(70);
        uint64_t n = c.chance(1, 2) ? c.pick(1000) : c.u64();
        step(t, in("k", k) + fmt("    pgfe_otp_counter_t n = %lluu;\n    if (pgfe_hotp_generic(%s, k, %zu, n, %d) != %uu) return 2;\n    if (pgfe_hotp_6digits(k, %zu, n) != %uu) return 3;\n", (unsigned long long)n, ALG[a].choice, k.size(), d,
                                 ref::hotp(a, k, n, d), k.size(), ref::hotp(ref::A_SHA1, k, n, 6)), fmt("HOTP with %s", ALG[a].c));
        return true;
    }
    bool c_totp() { // a window of 68 years: the counter is 0 until 2038 and 1 after that
        int t = with("otp/totp.h");
        if (t < 0) return false;
        Bytes k = msg(70);
        step(t, in("k", k) + fmt("    pgfe_totp_delta_t d = -1;\n    pgfe_otp_t v = pgfe_totp_6digits(k, %zu, 2147483647u, &d);\n    if (v != %uu && v != %uu) return 2;\n    if (d < 0) return 3;\n", k.size(), ref::hotp(ref::A_SHA1, k, 0, 6), ref::hotp(ref::A_SHA1, k, 1, 6)), "TOTP");
        return true;
    }
    bool c_utils() {
        int t = with("utils.h");
        if (t < 0) return false;
        Bytes m = msg(60);
        std::string h = ref::hex(m);
        step(t, in("m", m) + fmt("    char o[200];\n    unsigned char d[100];\n    if (pgfe_hash_to_hex_string(m, %zu, o) != %zu) return 2;\n", m.size(), h.size()) + eqs("o", h) + fmt("    if (pgfe_hex_string_to_hash(o, d) != %zu) return 3;\n", m.size()) + eq("d", m), "hexadecimal text");
        return true;
    }
    bool c_generic() {
        int t = with("generic.h");
        if (t < 0) return false;
        step(t, "    pgfe_encode_t a = 255;\n    pgfe_word_t b = 4294967295u;\n    pgfe_word64_t d = (pgfe_word64_t)b << 32;\n    pgfe_fake_uint64_t f;\n    f.left = b;\n    f.right = a;\n    enum pgfe_algorithm_choice q = SHAKE256;\n"
                "    if (pgfe_to_bit(4) != 32 || pgfe_to_byte(32) != 4 || pgfe_bit_rem(13) != 5 || !(d >> 63) || sizeof(f) != 8 || f.left != b || f.right != 255 || q == MD5) return 2;\n", "generic types");
        return true;
    }
    bool c_macros() { // the macros work on any expression, in any expression
        int t = with("generic.h");
        if (t < 0) return false;
        static const char *const M[] = {"pgfe_to_bit", "pgfe_to_byte", "pgfe_bit_rem"};
        int m = (int)c.pick(3);
        bool wide = c.chance(1, 3);
        uint64_t a = c.u64() >> (wide ? 6 : 38), b = c.u64() >> (wide ? 6 : 38), v = 0;
        if (a < b) std::swap(a, b);
        const char *e = "a";
        switch (c.pick(9)) {
        case 0: v = a; break;
        case 1: e = "a + b", v = a + b; break;
        case 2: e = "a - b", v = a - b; break;
        case 3: e = "a | b", v = a | b; break;
        case 4: e = "a ^ b", v = a ^ b; break;
        case 5: e = "a & b", v = a & b; break;
        case 6: e = "b ? a : b", v = b ? a : b; break;
        case 7: e = "a++", v = a; break;
        default: e = "a >> 1", v = a >> 1;
        }
        v = m == 0 ? v * 8 : m == 1 ? v / 8 : v % 8;
        std::string call = fmt("%s(%s)", M[m], e), whole;
        uint64_t w = 0;
        switch (c.pick(6)) {
        case 0: whole = call, w = v; break;
        case 1: whole = "7 + " + call + " * 3", w = 7 + v * 3; break;
        case 2: whole = "1000000007 / " + call, w = v ? 1000000007 / v : 0; break;
        case 3: whole = "1000000007 % " + call, w = v ? 1000000007 % v : 0; break;
        case 4: whole = "(" + call + " & 24) == 8", w = (v & 24) == 8; break;
        default: whole = "4294967295u - " + call, w = wide ? 4294967295u - v : (uint32_t)(4294967295u - v);
        }
        if (!v && !whole.compare(0, 10, "1000000007")) whole = call, w = 0; // no division by zero
        const char *type = wide ? "unsigned long long" : "unsigned";
        step(t, fmt("    %s a = %lluu, b = %lluu, r = ", type, (unsigned long long)a, (unsigned long long)b) + whole + fmt(";\n    if (r != %lluu) return 2;\n    if (a != %lluu || b != %lluu) return 3;\n", (unsigned long long)w, (unsigned long long)a + !strcmp(e, "a++"), (unsigned long long)b), whole);
        return true;
    }
    bool c_sizes() { // as sizes of arrays, and in expressions
        int a = (int)c.pick(ref::A_COUNT), t = with(ALG[a].header);
        if (c.chance(1, 4)) {
            static const int UNIT[] = {1, 5, 3}, CHUNK[] = {2, 8, 4}, BITS[] = {4, 5, 6}, NUM[] = {16, 32, 64};
            int k = (int)c.pick(3);
            if ((t = with(fmt("base_encoding/base%d.h", NUM[k]))) < 0) return false;
            std::string n = fmt("PGFE_BASE%d_", NUM[k]);
            step(t, "    static char u[" + n + "UNIT_SIZE], q[" + n + "CHUNK_COUNT];\n" + fmt("    if (sizeof u != %d || sizeof q != %d) return 2;\n", UNIT[k], CHUNK[k]) +
                        "    if (1000 / " + n + fmt("UNIT_SIZE != %d || 1000 / ", 1000 / UNIT[k]) + n + fmt("CHUNK_COUNT != %d || 1000 / ", 1000 / CHUNK[k]) + n + fmt("BIT_SIZE != %d || 1000 / ", 1000 / BITS[k]) + n +
                        fmt("ALPHABET_SIZE != %d) return 3;\n", 1000 / NUM[k]), fmt("sizes of base %d", NUM[k]));
            return true;
        }
        if (t < 0) return false;
        size_t d = ref::digest_size(a), b = ref::block_size(a);
        std::string D = fmt("PGFE_%s_DIGEST_SIZE", ALG[a].choice), B = fmt("PGFE_%s_BLOCK_SIZE", ALG[a].choice);
        step(t, "    static unsigned char d[" + D + "], b[" + B + "];\n" + fmt("    if (sizeof d != %zu || sizeof b != %zu) return 2;\n", d, b) +
                    "    if (1000 / " + D + fmt(" != %zu || 1000 / ", 1000 / d) + B + fmt(" != %zu || 3 * ", 1000 / b) + D + fmt(" != %zu || 3 * ", 3 * d) + B + fmt(" != %zu) return 3;\n", 3 * b), fmt("sizes of %s", ALG[a].choice));
        return true;
    }
    bool c_version() {
        int t = with("version.h");
        if (t < 0) return false;
        step(t, "    const char *v = LIBPGFE_VERSION;\n    int n = LIBPGFE_MAJOR_VERSION, i = 0;\n    while (*v >= '0' && *v <= '9') i = 10 * i + (*v++ - '0');\n    if (i != n || *v++ != '.') return 2;\n"
                "    n = LIBPGFE_MINOR_VERSION, i = 0;\n    while (*v >= '0' && *v <= '9') i = 10 * i + (*v++ - '0');\n    if (i != n || *v++ != '.') return 3;\n"
                "    n = LIBPGFE_REVISION, i = 0;\n    while (*v >= '0' && *v <= '9') i = 10 * i + (*v++ - '0');\n    if (i != n) return 4;\n    if (*v == '-') v++;\n    if (vp_nes(v, LIBPGFE_VARIANT)) return 5;\n", "version");
        return true;
    }
    // objects made in one file and used in others
    bool cpp_encoder(bool mac) {
        const char *h = mac ? "hmac/hmac_encoder.hpp" : "hashes/hash_encoder.hpp", *cls = mac ? "libpgfe::HMACEncoder" : "libpgfe::HashEncoder";
        int a = (int)c.pick(ref::A_FIXED), t = with(h);
        if (t < 0) return false;
        Bytes k = msg(150), m = msg(150), m2 = msg(150), all = m;
        all.insert(all.end(), m2.begin(), m2.end());
        std::string g = fmt("shared%d", nobj++), arg = std::string("::") + ALG[a].choice;
        if (mac) arg += fmt(", k, (size_t)%zu", k.size());
        bool global = c.chance(1, 3);
        if (global && mac) u[t].code += fmt("static const unsigned char %s_k[] = %s;\n", g.c_str(), array(k).c_str()), arg = std::string("::") + ALG[a].choice + fmt(", %s_k, (size_t)%zu", g.c_str(), k.size());
        u[t].code += global ? fmt("static %s %s_o(%s);\n%s *%s = &%s_o;\n", cls, g.c_str(), arg.c_str(), cls, g.c_str(), g.c_str()) : fmt("%s *%s;\n", cls, g.c_str());
        std::vector<bool> declared(u.size(), false);
        declared[t] = true;
        auto decl = [&](int i) {
            if (!declared[i]) u[i].code += fmt("extern %s *%s;\n", cls, g.c_str());
            declared[i] = true;
        };
        if (!global) step(t, (mac ? in("k", k) : "") + fmt("    %s = new %s(%s);\n", g.c_str(), cls, arg.c_str()), fmt("%s(%s) made", cls, ALG[a].choice));
        int t1 = with(h), t2 = with(h), t3 = with(h);
        decl(t1), step(t1, in("m", m) + fmt("    %s->update(m, %zu);\n", g.c_str(), m.size()), "update");
        decl(t2), step(t2, in("m", m2) + fmt("    std::string s((const char *)m, %zu);\n    %s->update(s);\n", m2.size(), g.c_str()), "update by a string");
        decl(t3), step(t3, fmt("    const libpgfe::SequentialData *d = %s->get_digest();\n    if (d->length() != %zu || %s->digest_size() != %zu || %s->block_size() != %zu) return 2;\n", g.c_str(), ref::digest_size(a), g.c_str(), ref::digest_size(a), g.c_str(), ref::block_size(a)) +
                              eq("d->to_pgfe_seq()", mac ? ref::hmac(a, k, all) : ref::hash(a, all)) + (global ? "" : fmt("    delete %s;\n", g.c_str())), "digest");
        return true;
    }
    bool cpp_base() {
        static const char *const H[] = {"base_encoding/base16.hpp", "base_encoding/base32.hpp", "base_encoding/base32.hpp", "base_encoding/base64.hpp", "base_encoding/base64.hpp"};
        static const char *const N[] = {"Base16 o", "Base32 o", "Base32 o(true)", "Base64 o", "Base64 o(true)"};
        int b = (int)c.pick(ref::B_COUNT), t = with(H[b]);
        if (t < 0) return false;
        Bytes m = msg(200);
        std::string e = ref::encode(b, m);
        step(t, in("m", m) + fmt("    libpgfe::%s;\n    std::string s = o.encode(m, %zu);\n    if (s.length() != %zu) return 2;\n", N[b], m.size(), e.size()) + eqs("s.c_str()", e) +
                    fmt("    libpgfe::SequentialData d = o.decode(s);\n    if (d.length() != %zu) return 3;\n", m.size()) + eq("d.to_pgfe_seq()", m), N[b]);
        return true;
    }
    bool cpp_fish() {
        int t = with("fishes/blowfish.hpp"), t2 = with("fishes/blowfish.hpp");
        if (t < 0) return false;
        Bytes k = c.bytes(1 + c.pick(56)), m = msg(60);
        Bytes e = ref::Blowfish(k).buffer(m, true);
        std::string g = fmt("shared%d", nobj++);
        u[t].code += fmt("libpgfe::Blowfish *%s;\n", g.c_str());
        if (t2 != t) u[t2].code += fmt("extern libpgfe::Blowfish *%s;\n", g.c_str());
        step(t, in("k", k) + fmt("    %s = new libpgfe::Blowfish(k, %zu);\n", g.c_str(), k.size()), "Blowfish object made");
        step(t2, in("m", m) + fmt("    libpgfe::SequentialData d = %s->encrypt(m, %zu);\n    if (d.length() != %zu) return 2;\n", g.c_str(), m.size(), e.size()) + eq("d.to_pgfe_seq()", e) + fmt("    delete %s;\n", g.c_str()), "Blowfish object used");
        return true;
    }
    bool cpp_hotp() {
        int a = 1 + (int)c.pick(ref::A_FIXED - 1), t = with("otp/hotp.hpp"), t2 = with("otp/hotp.hpp"), d = 1 + (int)c.pick(9);
        if (t < 0) return false;
        Bytes k = msg(70);
        uint64_t n = c.pick(1000);
        std::string g = fmt("shared%d", nobj++);
        u[t].code += fmt("libpgfe::HOTP *%s;\n", g.c_str());
        if (t2 != t) u[t2].code += fmt("extern libpgfe::HOTP *%s;\n", g.c_str());
        step(t, in("k", k) + fmt("    %s = new libpgfe::HOTP(k, %zu, ::%s);\n    %s->set_counter(%llu);\n", g.c_str(), k.size(), ALG[a].choice, g.c_str(), (unsigned long long)n), "HOTP object made");
        step(t2, fmt("    std::string s = %s->generate_str(%d);\n", g.c_str(), d) + eqs("s.c_str()", ref::zero_pad(ref::hotp(a, k, n, d), d)) + fmt("    delete %s;\n", g.c_str()), "HOTP object used");
        return true;
    }
    bool cpp_totp() {
        int t = with("otp/totp.hpp");
        if (t < 0) return false;
        Bytes k = msg(70);
        step(t, in("k", k) + fmt("    libpgfe::TOTP o(k, %zu, 2147483647u);\n    pgfe_otp_t v = o.generate(8);\n    if ((v != %uu && v != %uu) || o.interval() != 2147483647u) return 2;\n", k.size(), ref::hotp(ref::A_SHA1, k, 0, 8), ref::hotp(ref::A_SHA1, k, 1, 8)), "TOTP object");
        return true;
    }
    bool cpp_data() {
        int t = with("sequential_data.hpp"), t2 = with("sequential_data.hpp");
        if (t < 0) return false;
        Bytes m = msg(60);
        std::string g = fmt("shared%d", nobj++);
        u[t].code += fmt("libpgfe::SequentialData *%s;\n", g.c_str());
        if (t2 != t) u[t2].code += fmt("extern libpgfe::SequentialData *%s;\n", g.c_str());
        step(t, in("m", m) + fmt("    %s = new libpgfe::SequentialData(m, %zu);\n", g.c_str(), m.size()), "byte sequence made");
        step(t2, fmt("    if (%s->length() != %zu) return 2;\n", g.c_str(), m.size()) + eq(fmt("%s->to_pgfe_seq()", g.c_str()).c_str(), m) + eqs(fmt("%s->hex_str().c_str()", g.c_str()).c_str(), ref::hex(m)) + fmt("    delete %s;\n", g.c_str()), "byte sequence used");
        return true;
    }
    bool cpp_utils() {
        int t = with("utils.hpp");
        if (t < 0) return false;
        Bytes m = msg(60);
        step(t, fmt("    libpgfe::SequentialData *d = libpgfe::utils::sequential_data::from_hex_string(\"%s\");\n    if (d->length() != %zu) return 2;\n", ref::hex(m).c_str(), m.size()) + eq("d->to_pgfe_seq()", m) + "    delete d;\n", "from_hex_string");
        return true;
    }
    bool cpp_names() {
        int t = with("generic.hpp");
        if (t < 0) return false;
        int a = (int)c.pick(ref::A_COUNT);
        step(t, fmt("    using namespace libpgfe;\n    if (_algstr(\"%s\") != ::%s || \"%s\"_pgfe_alg != ::%s) return 2;\n    if (pgfe_digest_length.at(::%s) != %zu || pgfe_block_length.at(::%s) != %zu) return 3;\n", ALG[a].c, ALG[a].choice, ALG[a].choice,
                    ALG[a].choice, ALG[a].choice, ref::digest_size(a), ALG[a].choice, ref::block_size(a)), "algorithm names");
        return true;
    }
    bool cpp_subclass() { // classes of the user's own
        switch (c.pick(3)) {
        case 0: {
            int t = with("abstract_encoder.hpp");
            if (t < 0) return false;
            std::string n = fmt("Mine%d", nobj++);
            u[t].head += fmt("namespace { struct %s : libpgfe::AbstractEncoder { size_t n; %s() : n(0) {} using libpgfe::AbstractEncoder::update; void update(const pgfe_encode_t *, size_t k) { n += k; } }; }\n", n.c_str(), n.c_str());
            step(t, fmt("    %s x;\n    libpgfe::AbstractEncoder &e = x;\n    std::string s(5, 'a');\n    libpgfe::SequentialData d(\"ab\");\n    e.update(\"abc\");\n    e.update(s);\n    e.update(d);\n    if (x.n != 10) return 2;\n", n.c_str()), "own encoder class");
            return true;
        }
        case 1: {
            int t = with("exceptions.hpp");
            if (t < 0) return false;
            step(t, "    try { throw libpgfe::NotInitializedException(); } catch (std::exception &) { return 0; }\n", "exception");
            return true;
        }
        default: {
            int t = with("abstract_symmetric_crypter.hpp");
            if (t < 0) return false;
            std::string n = fmt("Mine%d", nobj++);
            u[t].head += fmt("namespace { struct %s : libpgfe::AbstractSymmetricCrypter { using libpgfe::AbstractSymmetricCrypter::encrypt; libpgfe::SequentialData encrypt(const pgfe_encode_t *p, size_t k) { return libpgfe::SequentialData(p, k); } }; }\n", n.c_str());
            step(t, fmt("    %s x;\n    libpgfe::AbstractSymmetricCrypter &e = x;\n    std::string s(5, 'a');\n    if (e.encrypt(s).length() != 5 || e.encrypt(\"abc\").length() != 3) return 2;\n", n.c_str()), "own crypter class");
            return true;
        }
        }
    }
    bool any_step() {
        switch (c.pick(25)) {
        case 0: return c_hash();
        case 1: return c_shared_hash();
        case 2: return c_hmac();
        case 3: return c_base();
        case 4: return c_fish();
        case 5: return c_otp();
        case 6: return c_totp();
        case 7: return c_utils();
        case 8: return c_generic();
        case 9: return c_version();
        case 10: return cpp_encoder(false);
        case 11: return cpp_encoder(true);
        case 12: return cpp_base();
        case 13: return cpp_fish();
        case 14: return cpp_hotp();
        case 15: return cpp_totp();
        case 16: return cpp_data();
        case 17: return cpp_utils();
        case 18: return cpp_names();
        case 19: case 20: return c_linkage();
        case 21: return c_macros();
        case 22: case 23: return c_sizes();
        default: return cpp_subclass();
        }
    }

public:
    explicit Program(Case &k) : c(k) {}
    void run() {
        size_t n = 1 + (size_t)c.weighted({5, 4, 2, 1});
        u.resize(n);
        bool any_cpp = false, any_c = false;
        size_t included = 0;
        for (size_t i = 0; i < n; i++) {
            Unit &x = u[i];
            x.cpp = c.chance(1, 2);
            any_cpp |= x.cpp;
            any_c |= !x.cpp;
            std::string d;
            size_t k = 1 + (size_t)c.weighted({6, 3, 2, 2, 1, 1, 1, 1});
            if (c.chance(1, 12)) k = 20 + c.pick(30);
            for (size_t q = 0; q < k; q++) {
                if (c.chance(1, 8)) {
                    const char *s = x.cpp && c.chance(1, 2) ? STD_CPP[c.pick(8)] : STD_C[c.pick(8)];
                    x.head += fmt("#include <%s>\n", s);
                    d += std::string(" <") + s + ">";
                }
                int h = q == 0 && i == 0 && !x.cpp ? (int)c.enumerate(NC) : x.cpp ? (c.chance(3, 4) ? NC + (int)c.pick(NH - NC) : (int)c.pick(NC)) : (int)c.pick(NC);
                x.have.push_back(h);
                x.head += fmt("#include %clibpgfe/%s%c\n", q % 3 == 2 ? '"' : '<', HEADERS[h].path, q % 3 == 2 ? '"' : '>');
                d += std::string(" ") + HEADERS[h].path;
                included++;
            }
            static const char *const C_STD[] = {"-std=c11", "-std=gnu11", "-std=c17", "-std=gnu17"}, *const CPP_STD[] = {"-std=c++14", "-std=gnu++14", "-std=c++17", "-std=gnu++17"};
            x.flags = (x.cpp ? CPP_STD : C_STD)[c.pick(4)];
            c.note("file %zu (%s):%s;", i, x.flags.c_str(), d.c_str());
        }
        for (size_t k = c.pick(7), tries = 0; k && tries < 60; tries++) if (any_step()) k--;
        // what every file thinks of the sizes
        std::vector<std::pair<std::string, std::string>> sizes;
        for (auto &a : ALG) sizes.push_back({std::string("pgfe_") + a.c + "_ctx", a.header});
        for (int a = 0; a < ref::A_FIXED; a++) sizes.push_back({std::string("pgfe_hmac_") + ALG[a].c + "_ctx", "hmac/hmac.h"});
        sizes.push_back({"pgfe_blowfish_ctx", "fishes/blowfish.h"});
        std::string decl, test;
        for (size_t s = 0; s < sizes.size(); s++) {
            int first = -1;
            for (size_t i = 0; i < n; i++) {
                if (!u[i].has(sizes[s].second)) continue;
                u[i].code += fmt("unsigned long size%zu_%zu = sizeof(struct %s);\n", s, i, sizes[s].first.c_str());
                decl += fmt("extern unsigned long size%zu_%zu;\n", s, i);
                if (first < 0) first = (int)i;
                else test += fmt("    if (size%zu_%d != size%zu_%zu) return 250;\n", s, first, s, i);
            }
        }
        Tmp tmp;
        std::vector<std::string> objs;
        std::string inc, lib = LIBRARY();
        if (lib.empty()) throw std::bad_alloc();
        std::string main_c = decl;
        for (size_t s = 0; s < steps.size(); s++) main_c += fmt("int step%zu(void);\n", s);
        std::vector<std::string> own;
        std::string todo;
        if (c.chance(1, 2)) {
            const size_t no = sizeof OWN / sizeof *OWN;
            bool all = c.chance(1, 3);
            size_t k = all ? no : 1 + c.pick(4);
            main_c += "static const char *volatile hit;\n";
            for (size_t q = 0; q < k; q++) {
                auto &o = OWN[all ? q : c.pick(no)];
                if (std::find(own.begin(), own.end(), o.name) != own.end()) continue;
                own.push_back(o.name);
                main_c += o.data ? fmt("char %s[100] = \"my own\";\n", o.name) : fmt("int %s(void) {\n    hit = \"%s\";\n    return 0;\n}\n", o.name, o.name);
            }
            for (auto &s : own) todo += (todo.empty() ? "a program with its own " : ", ") + s;
            todo += "; ";
            c.label("names of its own");
        }
        main_c += "int puts(const char *);\nint fflush(void *);\nint main(void) {\n" + test;
        for (size_t s = 0; s < steps.size(); s++) {
            main_c += fmt("    int r%zu = step%zu();\n", s, s);
            if (!own.empty()) main_c += "    if (hit) {\n        puts(hit);\n        fflush(0);\n        return 251;\n    }\n";
            main_c += fmt("    if (r%zu) return %zu;\n", s, s + 1);
        }
        main_c += "    return 0;\n}\n";
        for (size_t s = 0; s < steps.size(); s++) todo += fmt("%s[file %d] %s", s ? ", " : "", steps[s].first, steps[s].second.c_str());
        c.note("then %s", todo.c_str());
        c.label("%s", any_c && any_cpp ? "C and C++ files" : any_cpp ? "C++ files" : "C files");
        c.label(n == 1 ? "one file" : "%zu files", n);
        if (steps.size()) c.label("with steps");
        bool gcc = c.chance(1, 2);
        std::string cc = gcc ? "/usr/bin/gcc" : "/usr/bin/clang", cxx = gcc ? "/usr/bin/g++" : "/usr/bin/clang++", log = tmp.d + "/log";
        c.note("(%s)", gcc ? "gcc" : "clang");
        auto compile = [&](const std::string &name, bool cpp, const std::string &flags, const std::string &text) {
            std::string src = tmp.d + "/" + name + (cpp ? ".cpp" : ".c"), obj = tmp.d + "/" + name + ".o";
            spit(src, text);
            c.op();
            int st = command(c, {cpp ? cxx : cc, flags, "-w", "-O0", "-fPIC", "-I", REPO_INCLUDE, "-c", src, "-o", obj}, log, tmp.d.c_str());
            if (st) {
                std::string out = slurp(log, 6000);
                if (!WIFEXITED(st) || out.find("error:") == out.npos || out.find("No space left") != out.npos || out.find("annot allocate") != out.npos) throw std::bad_alloc();
                size_t at = out.find("error:");
                at = out.rfind('\n', at);
                at = at == out.npos ? 0 : at + 1;
                c.fail("%s does not compile: %.900s", name.c_str(), out.c_str() + at);
            }
            objs.push_back(obj);
        };
        compile("main", false, "-std=c11", main_c);
        for (size_t i = 0; i < n; i++) {
            std::string t = u[i].head;
            t += "static int vp_ne(const unsigned char *a, const unsigned char *b, unsigned long n) {\n    while (n--) if (*a++ != *b++) return 1;\n    return 0;\n}\n"
                 "static int vp_nes(const char *a, const char *b) {\n    while (*a && *a == *b) a++, b++;\n    return *a != *b;\n}\n";
            if (u[i].cpp) t += "extern \"C\" {\n" + u[i].code + "}\n";
            else t += u[i].code;
            compile(fmt("file%zu", i), u[i].cpp, u[i].flags, t);
        }
        std::string exe = tmp.d + "/program";
        std::vector<std::string> ld = {any_cpp ? cxx : cc, "-o", exe};
        ld.insert(ld.end(), objs.begin(), objs.end());
        ld.insert(ld.end(), {lib, "-Wl,-rpath," + lib.substr(0, lib.rfind('/'))});
        c.op();
        int st = command(c, ld, log, tmp.d.c_str());
        if (st) {
            std::string out = slurp(log, 6000);
            if (!WIFEXITED(st) || (out.find("undefined") == out.npos && out.find("multiple definition") == out.npos && out.find("error:") == out.npos) || out.find("No space left") != out.npos) throw std::bad_alloc();
            c.fail("the program does not link: %.1200s", out.c_str());
        }
        c.op();
        st = command(c, {exe}, log, tmp.d.c_str());
        if (WIFSIGNALED(st)) {
            if (WTERMSIG(st) == SIGKILL) throw std::bad_alloc();
            c.fail("the program was killed by signal %s", strsignal(WTERMSIG(st)));
        }
        int e = WEXITSTATUS(st);
        if (e == 250) c.fail("two files of the program disagree on the size of a structure");
        if (e == 251) c.fail("the library calls the program's own function %s", slurp(log, 200).c_str());
        if (e == 127) throw std::bad_alloc();
        if (e) c.fail("step %d of the program gives a wrong result (%s)", e, (size_t)e <= steps.size() ? steps[e - 1].second.c_str() : slurp(log, 500).c_str());
        if (included + steps.size() >= 3) c.nontrivial();
    }
};
} // namespace

PROP_CPU(X04, 120, "three or more headers and uses of the library") {
    if (c.fill >= 0 || c.sched) throw Discard();
    Program(c).run();
}
