// H01 H02 H03 H04 H06: hashes and extendable-output functions
#include "common.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <cerrno>
#include <csignal>
#include <thread>
#include <unistd.h>
using namespace api;
using namespace gen;

PROP_BODY(H01, "the message is not empty") {
    int a = fixed_alg(c);
    const HashApi &h = hashes[a];
    size_t block = ref::block_size(a);
    Bytes m = c.bytes(msg_len(c, block));
    bool null = m.empty() && c.chance(1, 2);
    c.note("%s of %s", h.name, show(m).c_str());
    c.label("%s", h.name);
    c.label("%s", len_class(m.size(), block));
    In in(c, m.data(), m.size(), null);
    Out out(c, ref::digest_size(a));
    c.op();
    h.encode(in.u8(), m.size(), out.u8(), 0);
    out.check();
    in.verify();
    c.same("digest", out.u8(), ref::digest_size(a), [&] { return ref::hash(a, m); });
    if (!m.empty()) c.nontrivial();
}
PROP_BIG(H01)

PROP_BODY(H02, "the message is not empty and reaches the hash in two or more pieces, or through a string or multi-part function") {
    int a = any_alg(c);
    const HashApi &h = hashes[a];
    size_t block = ref::block_size(a);
    uint64_t bits = 0;
    size_t outn = ref::digest_size(a);
    if (ref::is_xof(a)) {
        bits = c.chance(1, 3) ? xof_bits(c, block) : ref::digest_size(a) * 8;
        outn = bits_to_bytes(bits);
    }
    int how = c.weighted({6, 3, 2, 1});
    if (c.deep == Case::LIFE) how = 0;
    Bytes m = c.bytes(c.deep == Case::LIFE ? c.pick(5 * c.life) : msg_len(c, block));
    if (how == 2) m = cut_at_nul(m);
    c.label("%s", h.name);
    c.note("%s of %s, %llu bits", h.name, show(m).c_str(), (unsigned long long)bits);
    Out out(c, outn);
    size_t pieces = 1;
    if (how == 0) { // a context
        std::vector<size_t> parts = split(c, m.size(), block, c.deep == Case::LIFE ? c.life : 40);
        Ctx x(c, h.ctx_size);
        used_before(c, h, a, x);
        c.op();
        h.init(x.p());
        size_t off = 0;
        pieces = parts.size();
        bool null_ok = !ref::is_xof(a) && strncmp(h.name, "sha3_", 5); // the SHA-3 contexts have no such check
        std::string d;
        for (size_t k : parts) {
            if (c.want_desc) d += " " + std::to_string(k);
            if (null_ok && c.chance(1, 40)) { // nothing instead of a piece
                size_t q = c.len(block, 200);
                if (c.want_desc) d += " (null " + std::to_string(q) + ")";
                c.label("context, a null piece");
                c.op();
                h.update(x.p(), nullptr, q);
            }
            In in(c, m.data() + off, k, k == 0 && c.chance(1, 4));
            c.op();
            h.update(x.p(), in.u8(), k);
            in.verify();
            off += k;
        }
        c.note("context updated with%s", d.c_str());
        c.label("context, %s", pieces == 1 ? "1 piece" : pieces < 5 ? "2-4 pieces" : "5 or more pieces");
        c.op();
        h.digest(x.p(), out.u8(), bits);
        x.check();
    }
    else if (how == 1) { // several parts
        size_t most = 10;
        if (c.chance(1, 12)) most = c.chance(1, 16) ? MAXPARTS : 36;
        std::vector<size_t> parts = split(c, m.size(), block, most);
        if (most == MAXPARTS) { // small ones
            size_t left = m.size();
            parts.clear();
            while (parts.size() + 40 < MAXPARTS && left) {
                size_t k = c.pick(4);
                if (k > left) k = left;
                parts.push_back(k);
                left -= k;
            }
            parts.push_back(left);
        }
        std::vector<std::unique_ptr<In>> ins;
        std::vector<Part> v;
        size_t off = 0;
        std::string d;
        bool nulls = false;
        for (size_t k : parts) {
            if (c.want_desc) d += " " + std::to_string(k);
            if (v.size() + (parts.size() - ins.size()) < most && c.chance(1, 5)) { // a null part is skipped
                size_t n = c.pick(3) ? c.len(block, 200) : 0;
                v.push_back({nullptr, n});
                nulls = true;
                d += "(null " + std::to_string(n) + ")";
            }
            ins.emplace_back(new In(c, m.data() + off, k));
            v.push_back({ins.back()->u8(), k});
            off += k;
        }
        if (v.size() < most && c.chance(1, 8)) v.push_back({nullptr, (size_t)c.pick(100)}), nulls = true;
        if (m.empty() && !nulls && c.chance(1, 2)) v.clear();
        while (v.size() < parts_fitting(v.size())) v.push_back({nullptr, (size_t)c.pick(3)});
        if (v.size() > 10) c.label("more than ten parts%s", v.size() > 40 ? ", more than forty" : "");
        pieces = v.size() < 2 ? 2 : v.size();
        c.note("parts%s", d.c_str());
        c.label("parts%s", nulls ? " with null ones" : "");
        c.op();
        h.encode_multi(out.u8(), bits, v.data(), v.size());
        for (auto &i : ins) i->verify();
    }
    else if (how == 2) { // a C string
        In in(c, gen::str(m));
        pieces = 2;
        c.note("as a C string");
        c.label("C string");
        c.op();
        h.encode_default(in.u8(), out.u8(), bits);
        in.verify();
    }
    else {
        In in(c, m);
        c.note("one call");
        c.label("one call");
        c.op();
        h.encode(in.u8(), m.size(), out.u8(), bits);
    }
    out.check();
    c.same("digest", out.u8(), outn, [&] { return ref::hash(a, m, bits); });
    if (!m.empty() && pieces > 1) c.nontrivial();
}
PROP_BIG(H02)
PROP_LIFE(H02)

PROP_BODY(H07, "a null pointer is among the arguments of a call") {
    int a = (int)c.pick(ref::A_SHA3_224); // MD5, SHA-1, SHA-2
    const HashApi &h = hashes[a];
    size_t block = ref::block_size(a), outn = ref::digest_size(a);
    c.label("%s", h.name);
    auto nothing = [&](Ctx *x) { // a call that does nothing
        int what = (int)c.pick(x ? 5 : 3);
        size_t n = c.pick(2) ? c.len(block, 300) : c.pick(3 * block);
        static const char *const names[] = {"init of a null context", "update of a null context", "digest of a null context", "update with a null input", "digest to a null output"};
        c.label("%s", names[what]);
        c.note("%s", names[what]);
        c.op();
        c.nontrivial();
        if (what == 0) h.init(nullptr);
        else if (what == 1) {
            Bytes d = c.bytes(n);
            In in(c, d.data(), n, c.pick(3) == 0);
            h.update(nullptr, in.u8(), n);
            in.verify();
        }
        else if (what == 2) {
            Out o(c, outn);
            Bytes before(o.u8(), o.u8() + outn);
            bool null = c.pick(3) == 0;
            h.digest(nullptr, null ? nullptr : o.u8(), 0);
            o.check();
            c.require("a digest of a null context writes nothing", !memcmp(before.data(), o.u8(), outn));
        }
        else if (what == 3) h.update(x->p(), nullptr, n);
        else h.digest(x->p(), nullptr, 0);
    };
    if (c.chance(1, 4)) { // one call
        Bytes m = c.bytes(msg_len(c, block));
        Out out(c, outn);
        int form = (int)c.pick(4);
        static const char *const names[] = {"encode of a null input", "encode to a null output", "stream to a null output", "parts to a null output"};
        c.note("%s %s, %zu bytes", h.name, names[form], m.size());
        c.label("%s", names[form]);
        c.op();
        c.nontrivial();
        In in(c, m.data(), m.size());
        if (form == 0) {
            h.encode(nullptr, m.size(), out.u8(), 0);
            out.check();
            c.same("digest of nothing", out.u8(), outn, [&] { return ref::hash(a, Bytes()); });
            return;
        }
        if (form == 1) h.encode(in.u8(), m.size(), nullptr, 0);
        else if (form == 2) {
            FILE *f = m.empty() ? fopen("/dev/null", "r") : fmemopen((void *)in.u8(), m.size(), "r");
            if (!f) throw std::bad_alloc();
            h.encode_f(f, nullptr, 0);
            fclose(f);
        }
        else {
            Part v[2] = {{in.u8(), m.size()}, {nullptr, (size_t)c.pick(50)}};
            h.encode_multi(nullptr, 0, v, 2);
        }
        in.verify();
        return;
    }
    Ctx x(c, h.ctx_size);
    Out out(c, outn);
    c.note("%s", h.name);
    c.op();
    h.init(x.p());
    Bytes m;
    size_t n = 1 + c.pick(8);
    while (n--) {
        if (c.chance(1, 2)) nothing(c.chance(1, 4) ? nullptr : &x);
        else {
            Bytes d = c.bytes(c.pick(2) ? c.len(block, 300) : c.pick(2 * block + 2));
            In in(c, d.data(), d.size());
            c.note("update with %zu bytes", d.size());
            c.op();
            h.update(x.p(), in.u8(), d.size());
            in.verify();
            m.insert(m.end(), d.begin(), d.end());
        }
    }
    c.op();
    h.digest(x.p(), out.u8(), 0);
    x.check();
    out.check();
    c.same("digest", out.u8(), outn, [&] { return ref::hash(a, m); });
}

PROP_BODY(H03, "the output length is neither zero nor the customary one (256 or 512 bits)") {
    int a = xof_alg(c);
    const HashApi &h = hashes[a];
    size_t rate = ref::block_size(a);
    uint64_t bits = xof_bits(c, rate);
    size_t n = bits_to_bytes(bits);
    Bytes m = c.bytes(c.chance(1, 2) ? c.len(rate, 600) : c.pick(8));
    c.note("%s of %s, %llu bits", h.name, show(m).c_str(), (unsigned long long)bits);
    c.label("%s", h.name);
    c.label("%s", bits == 0 ? "no output" : bits % 8 ? "part of a byte" : bits > 8 * rate ? "more than one block of output" : "whole bytes");
    bool was = c.mem_fatal;
    c.mem_fatal = true; // "no byte after the last one is written"
    In in(c, m);
    Out out(c, n);
    if (c.chance(1, 2)) {
        c.op();
        h.encode(in.u8(), m.size(), out.u8(), bits);
    }
    else {
        Ctx x(c, h.ctx_size);
        used_before(c, h, a, x);
        c.op();
        h.init(x.p());
        c.op();
        h.update(x.p(), in.u8(), m.size());
        c.op();
        h.digest(x.p(), out.u8(), bits);
    }
    out.check();
    c.mem_fatal = was;
    c.same("output", out.u8(), n, [&] { return ref::hash(a, m, bits); });
    if (bits && bits != ref::digest_size(a) * 8) c.nontrivial();
}
PROP_BIG(H03)

PROP_BODY(H04, "the output is asked for in two or more pieces that are not empty, or two lengths of it are compared") {
    int a = xof_alg(c);
    const HashApi &h = hashes[a];
    size_t rate = ref::block_size(a);
    Bytes m = c.bytes(c.chance(1, 3) ? c.len(rate, 600) : c.pick(8));
    size_t total = c.deep == Case::LIFE ? (size_t)c.pick(5 * c.life) : xof_bits(c, rate, true) / 8;
    c.label("%s", h.name);
    c.note("%s of %s", h.name, show(m).c_str());
    In in(c, m);
    if (c.deep != Case::LIFE && c.chance(1, 4)) { // prefixes
        uint64_t b1 = xof_bits(c, rate), b2 = xof_bits(c, rate);
        if (b1 > b2) std::swap(b1, b2);
        Out o1(c, bits_to_bytes(b1)), o2(c, bits_to_bytes(b2));
        c.note("first %llu and %llu bits", (unsigned long long)b1, (unsigned long long)b2);
        c.op();
        h.encode(in.u8(), m.size(), o1.u8(), b1);
        c.op();
        h.encode(in.u8(), m.size(), o2.u8(), b2);
        o1.check();
        o2.check();
        bool ok = !memcmp(o1.u8(), o2.u8(), b1 / 8);
        if (b1 % 8) ok = ok && ((o1.u8()[b1 / 8] ^ o2.u8()[b1 / 8]) & ((1 << (b1 % 8)) - 1)) == 0;
        c.require("the shorter output is a prefix of the longer one", ok);
        c.same("output", o2.u8(), bits_to_bytes(b2), [&] { return ref::hash(a, m, b2); });
        c.label("prefix");
        if (b1 && b1 != b2) c.nontrivial();
        return;
    }
    std::vector<size_t> parts = split(c, total, rate, c.deep == Case::LIFE ? c.life : 12);
    Ctx x(c, h.ctx_size);
    used_before(c, h, a, x);
    c.op();
    h.init(x.p());
    c.op();
    h.update(x.p(), in.u8(), m.size());
    Bytes all;
    Bytes want;
    if (c.oracle) want = ref::hash(a, m, (uint64_t)total * 8);
    int full = 0;
    std::string d;
    if (c.want_desc) for (size_t k : parts) d += " " + std::to_string(k);
    c.note("squeezed in pieces of%s bytes", d.c_str());
    for (size_t k : parts) {
        Out o(c, k);
        c.op();
        h.digest(x.p(), o.u8(), (size_t)k * 8);
        o.check();
        size_t off = all.size();
        c.same("piece of the output stream", o.u8(), k,
               [&] { return Bytes(want.begin() + (ptrdiff_t)off, want.begin() + (ptrdiff_t)(off + k)); });
        all.insert(all.end(), o.u8(), o.u8() + k);
        if (k) full++;
    }
    x.check();
    c.label("%s", full > 4 ? "5 or more pieces" : full > 1 ? "2-4 pieces" : "1 piece");
    if (full > 1) c.nontrivial();
}
PROP_BIG(H04)
PROP_LIFE(H04)

namespace {
struct Cookie
{
    const Bytes *d;
    size_t pos;
    Src chunks;
    int mode;
    bool fails = false; // behind the data there is no end but an error
    int nested = -1;    // the read function computes hashes of its own, by this algorithm
    std::vector<std::pair<Bytes, Bytes>> results = {};
};
ssize_t ck_read(void *v, char *buf, size_t n) {
    Cookie *k = (Cookie *)v;
    size_t left = k->d->size() - k->pos, want;
    switch (k->mode) {
    case 0: want = n; break;
    case 1: want = 1 + k->chunks.draw(7); break;
    case 2: want = 1 + k->chunks.draw(1500); break;
    default: want = k->chunks.draw(3) ? 512 : 1;
    }
    if (want > n) want = n;
    if (want > left) want = left;
    if (k->fails && !left) {
        errno = EIO;
        return -1;
    }
    if (k->nested >= 0 && k->results.size() < 40) {
        const HashApi &h = hashes[k->nested];
        Bytes m(1 + k->chunks.draw(300)), o(ref::digest_size(k->nested));
        for (auto &x : m) x = (uint8_t)k->chunks.draw(256);
        FILE *f = k->chunks.draw(2) ? fmemopen(m.data(), m.size(), "rb") : nullptr;
        if (f) h.encode_f(f, o.data(), o.size() * 8);
        else h.encode(m.data(), m.size(), o.data(), o.size() * 8);
        if (f) fclose(f);
        k->results.push_back({m, o});
    }
    memcpy(buf, k->d->data() + k->pos, want);
    k->pos += want;
    return (ssize_t)want;
}
Bytes whole_file(const char *name) {
    Bytes b;
    int fd = open(name, O_RDONLY);
    if (fd < 0) return b;
    uint8_t t[4096];
    for (ssize_t k; (k = read(fd, t, sizeof t)) > 0;) b.insert(b.end(), t, t + k);
    close(fd);
    return b;
}
struct Writer // fills a pipe little by little, from another thread
{
    std::thread t;
    ~Writer() { if (t.joinable()) t.join(); }
    void start(int fd, const Bytes &m, int mode, uint64_t seed) {
        signal(SIGPIPE, SIG_IGN);
        t = std::thread([fd, &m, mode, seed] {
            Src r;
            r.seed(seed);
            for (size_t w = 0; w < m.size();) {
                size_t k = mode == 0 ? 1 + r.draw(20) : mode == 1 ? 1 + r.draw(1500) : 1024;
                if (k > m.size() - w) k = m.size() - w;
                ssize_t got = write(fd, m.data() + w, k);
                if (got <= 0) break;
                w += (size_t)got;
                if (r.draw(4) == 0) std::this_thread::yield();
            }
            close(fd);
        });
    }
};
struct Closer
{
    FILE *f = nullptr;
    ~Closer() { if (f) fclose(f); }
};
} // namespace

PROP_BODY(H06, "the rest of the stream is not empty") {
    int a = any_alg(c);
    const HashApi &h = hashes[a];
    uint64_t bits = 0;
    size_t outn = ref::digest_size(a);
    if (ref::is_xof(a)) {
        bits = c.chance(1, 3) ? xof_bits(c, ref::block_size(a)) : ref::digest_size(a) * 8;
        outn = bits_to_bytes(bits);
    }
    size_t n;
    if (c.deep == Case::BIG && (n = c.big(1024))) {}
    else switch (c.weighted({2, 6, 5, 1})) {
    case 0: n = c.pick(10); break;
    case 1: n = 1024 * c.pick(9) + c.pick(5); n = n > 2 ? n - 2 : n; break;
    case 2: n = c.len(1024, 9000); break;
    default: n = c.len(4096, 140000);
    }
    Bytes m = c.bytes(n);
    int kind = c.weighted({4, 4, 3, 2, 2, 1, 1, 1, 1, 1});
    const char *proc = nullptr;
    if (kind == 8) { // a file whose size is given as 0
        static const char *const names[] = {"/proc/version", "/proc/filesystems", "/proc/devices", "/proc/misc"};
        proc = names[c.pick(4)];
        Bytes p = whole_file(proc);
        if (p.empty() || p != whole_file(proc)) kind = 0;
        else m = p, n = m.size();
    }
    size_t skip = c.chance(1, 3) ? c.pick(n + 1) : 0;
    if ((kind == 2 || kind == 9) && n > 60000) kind = 1;
    if (kind == 5 && !n) kind = 4;
    if (kind == 6 && n > 60000) kind = 0;
    Writer wr; // ends after the stream has been closed
    Closer cl;
    Cookie ck{&m, 0, Src(), 0};
    std::string d;
    if (kind == 0 || kind == 1) { // regular file
        int fd = memfd_create("h06", 0);
        size_t w = 0;
        while (w < n) {
            ssize_t k = write(fd, m.data() + w, n - w);
            if (k <= 0) throw std::bad_alloc();
            w += (size_t)k;
        }
        if (kind == 1 && skip) lseek(fd, (off_t)skip, SEEK_SET); // the stream starts inside the file
        else lseek(fd, 0, SEEK_SET);
        cl.f = fdopen(fd, "rb");
        d = kind == 1 ? "file opened at its offset" : "file";
    }
    else if (kind == 4) { // written through the same stream
        cl.f = fdopen(memfd_create("h06", 0), "w+b");
        if (!cl.f || fwrite(m.data(), 1, n, cl.f) != n) throw std::bad_alloc();
        if (c.chance(1, 2)) rewind(cl.f);
        else if (fseek(cl.f, 0, SEEK_SET)) throw std::bad_alloc();
        d = "file opened for writing and reading";
    }
    else if (kind == 5) {
        cl.f = fmemopen(m.data(), n, "rb");
        d = "memory stream";
    }
    else if (kind == 6) { // far behind the beginning of a file with a hole
        static const off_t far[] = {1LL << 31, 1LL << 32, 3LL << 31, 1LL << 40};
        off_t at = far[c.pick(4)] + (off_t)c.pick(3000) - 1500;
        int fd = memfd_create("h06", 0);
        if (n ? pwrite(fd, m.data(), n, at) != (ssize_t)n : ftruncate(fd, at)) throw std::bad_alloc();
        cl.f = fdopen(fd, "rb");
        if (!cl.f || fseeko(cl.f, at, SEEK_SET)) throw std::bad_alloc();
        d = "file with a hole";
    }
    else if (kind == 8) {
        cl.f = fopen(proc, "rb");
        d = "file of size 0 with contents";
    }
    else if (kind == 2 || kind == 9) {
        int p[2];
        if (kind == 2 ? pipe(p) : socketpair(AF_UNIX, SOCK_STREAM, 0, p)) throw std::bad_alloc();
        if (kind == 2) fcntl(p[1], F_SETPIPE_SZ, 1 << 16);
        size_t w = 0;
        fcntl(p[1], F_SETFL, O_NONBLOCK);
        while (w < n) {
            ssize_t k = write(p[1], m.data() + w, n - w);
            if (k <= 0) break;
            w += (size_t)k;
        }
        close(p[1]);
        if (w < n) {
            close(p[0]);
            throw Discard();
        }
        cl.f = fdopen(p[0], "rb");
        d = kind == 2 ? "pipe" : "socket";
    }
    else if (kind == 3) {
        ck.mode = (int)c.pick(4);
        ck.chunks.seed(c.pick(1 << 20));
        cookie_io_functions_t io = {ck_read, nullptr, nullptr, nullptr};
        cl.f = fopencookie(&ck, "rb", io);
        d = "custom stream, mode " + std::to_string(ck.mode);
        ck.fails = c.chance(1, 4);
        if (ck.fails) c.label("reading fails behind the data"), d += ", reading fails behind the data";
        if (c.chance(1, 4)) {
            ck.nested = c.pick(2) ? a : any_alg(c);
            c.label("the stream computes hashes too");
            d += std::string(", whose read function computes ") + hashes[ck.nested].name;
        }
    }
    else if (kind == 7) {
        int p[2];
        if (pipe(p)) throw std::bad_alloc();
        int mode = n > 200000 ? 2 : (int)c.pick(3);
        cl.f = fdopen(p[0], "rb");
        wr.start(p[1], m, mode, c.pick(1 << 20));
        d = "slowly written pipe";
    }
    if (!cl.f) throw std::bad_alloc();
    int buf = c.weighted({4, 1, 1});
    if (kind == 4) buf = 0;
    if (buf == 1) setvbuf(cl.f, nullptr, _IONBF, 0);
    else if (buf == 2) setvbuf(cl.f, nullptr, _IOFBF, 256 + c.pick(3000));
    if (skip && kind != 1) { // move to a position
        if ((kind == 0 || kind == 4 || kind == 5) && c.chance(1, 2)) fseek(cl.f, (long)skip, SEEK_SET);
        else {
            Bytes t(skip);
            if (fread(t.data(), 1, skip, cl.f) != skip) throw std::bad_alloc();
        }
        if (c.chance(1, 4)) { // one byte back
            ungetc(m[skip - 1], cl.f);
            skip--;
        }
    }
    c.label("%s", kind == 3 ? "custom stream" : d.c_str());
    c.label("%s", n == skip ? "nothing left" : (n - skip) % 1024 == 0 ? "multiple of the buffer" : n - skip > 1024 ? "several buffers" : "below a buffer");
    c.note("%s, %s of %s from position %zu, buffering %d, %llu bits", h.name, d.c_str(), show(m).c_str(), skip, buf, (unsigned long long)bits);
    Out out(c, outn);
    c.op();
    h.encode_f(cl.f, out.u8(), bits);
    out.check();
    for (auto &r : ck.results) c.same("digest computed by the stream", r.second.data(), r.second.size(), [&] { return ref::hash(ck.nested, r.first.data(), r.first.size(), r.second.size() * 8); });
    if (kind == 8 && whole_file(proc) != m) throw Discard(); // the system changed it meanwhile
    c.same("digest", out.u8(), outn, [&] { return ref::hash(a, m.data() + skip, n - skip, bits); });
    if (n > skip) c.nontrivial();
    int more = c.deep ? 0 : c.chance(1, 4) ? 1 + (int)c.pick(2) : 0;
    while (more--) { // once more: at its end, or from elsewhere
        int b = any_alg(c);
        const HashApi &g = hashes[b];
        size_t from = n;
        if (kind != 2 && kind != 3 && kind < 6 && c.pick(4)) {
            from = c.chance(1, 2) ? 0 : c.pick(n + 1);
            if (!from && c.pick(2)) rewind(cl.f);
            else fseek(cl.f, (long)from, SEEK_SET);
        }
        uint64_t bits2 = ref::is_xof(b) ? ref::digest_size(b) * 8 : 0;
        Out out2(c, ref::digest_size(b));
        c.note("again with %s from position %zu", g.name, from);
        c.label("%s", from == n ? "a stream at its end again" : "a stream set back and hashed again");
        c.op();
        g.encode_f(cl.f, out2.u8(), bits2);
        out2.check();
        c.same("digest", out2.u8(), ref::digest_size(b), [&] { return ref::hash(b, m.data() + from, n - from, bits2); });
    }
}
PROP_BIG(H06)
