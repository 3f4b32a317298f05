// X07: objects used and destroyed through their base classes
#include "libpgfe/base_encoding/base16.hpp"
#include "libpgfe/base_encoding/base32.hpp"
#include "libpgfe/base_encoding/base64.hpp"
#include "libpgfe/exceptions.hpp"
#include "libpgfe/fishes/blowfish.hpp"
#include "libpgfe/hashes/hash_encoder.hpp"
#include "libpgfe/hmac/hmac_encoder.hpp"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.hpp"
#include "otp_gen.hpp"
#include <memory>
using namespace api;
using namespace gen;
using namespace libpgfe;

namespace {
struct Gate // what the library allocates is counted
{
    Gate() { AllocGate::on(0); }
    ~Gate() { AllocGate::off(); }
};
// A class of the user's own, whose destructor has to run too
template <class T> class Own : public T
{
    int *gone;
    Bytes more;

public:
    template <class... A> Own(int *g, const Bytes &m, A &&...a) : T(std::forward<A>(a)...), gone(g), more(m) {}
    ~Own() { ++*gone; }
};
struct Obj
{
    Case &c;
    const char *name = "";
    std::string own;
    int gone = 0;
    bool is_own = false;
    unsigned checked = 0; // results through a base class
    explicit Obj(Case &c) : c(c) {}
    virtual ~Obj() {}
    virtual void step() = 0;
    virtual void destroy() = 0; // through some base class
    template <class T, class... A> T *make(A &&...a) {
        is_own = c.chance(1, 3);
        c.op();
        if (!is_own) {
            Gate g;
            return new T(std::forward<A>(a)...);
        }
        Bytes m = c.bytes(c.pick(40));
        Gate g;
        return new Own<T>(&gone, m, std::forward<A>(a)...);
    }
    // Destroys the object through base B
    template <class B> void end(B *p, const char *as) {
        c.note("%s%s goes away as %s", is_own ? "own " : "", name, as);
        c.label("%s%s goes away as %s", is_own ? "own " : "", name, as);
        c.op();
        int64_t bad = AllocGate::missized();
        delete p;
        if (AllocGate::missized() != bad) c.fail("the object was deleted with the size of another class");
        c.require("the destructor of the object's own class runs once", gone == (is_own ? 1 : 0));
    }
};
template <class E> void feed(Case &c, E &o, const Bytes &d, int f) {
    std::string s = gen::str(d);
    In in(c, f == 1 ? s.c_str() : (const char *)d.data(), f == 1 ? s.size() + 1 : d.size());
    SequentialData sd = seq(d);
    c.op();
    Gate g;
    if (f == 0) o.update(in.u8(), d.size());
    else if (f == 1) o.update(in.cs());
    else if (f == 2) o.update(s);
    else o.update(sd);
}
// HashEncoder and HMACEncoder
template <class T> struct EncObj : Obj
{
    int a;
    bool mac;
    size_t block;
    T *o = nullptr;
    Bytes k, msg;
    bool done = false;
    explicit EncObj(Case &c, bool mac) : Obj(c), mac(mac) {
        name = mac ? "HMACEncoder" : "HashEncoder";
        a = mac ? fixed_alg(c) : any_alg(c);
        block = ref::block_size(a);
        if constexpr (std::is_same_v<T, HMACEncoder>) {
            k = hmac_key(c, block);
            int f = (int)c.pick(4);
            if (f == 1) k = cut_at_nul(k);
            std::string s = gen::str(k);
            SequentialData sd = seq(k);
            pgfe_algorithm_choice ch = hashes[a].choice;
            if (f == 0) o = make<T>(ch, (const pgfe_encode_t *)k.data(), k.size());
            else if (f == 1) o = make<T>(ch, s.c_str());
            else if (f == 2) o = make<T>(ch, s);
            else o = make<T>(ch, sd);
        }
        else o = make<T>(hashes[a].choice);
        c.note("%s %s, key %s", name, hashes[a].name, show(k).c_str());
    }
    template <class F> void with(int v, F f) { // through the object's class or one of its bases
        if (v == 0) f(*o);
        else if (v == 1) f((AbstractHashEncoder &)*o);
        else f((AbstractEncoder &)*o);
    }
    void step() override {
        int v = c.weighted({1, 3, 3});
        static const char *const views[] = {"", "AbstractHashEncoder ", "AbstractEncoder "};
        int what = c.weighted({5, 4, 2, 1});
        if (done && what < 2) what = 2;
        if (what == 0) {
            Bytes d = c.data(block, 500);
            int f = (int)c.pick(4);
            if (f == 1) d = cut_at_nul(d);
            c.note("%supdate %s, form %d", views[v], show(d).c_str(), f);
            with(v, [&](auto &e) { feed(c, e, d, f); });
            msg.insert(msg.end(), d.begin(), d.end());
        }
        else if (what == 1) {
            c.note("%sdigest", views[v]);
            c.op();
            const SequentialData *d = nullptr;
            with(v, [&](auto &e) {
                Gate g;
                d = e.get_digest();
            });
            if (!d) c.fail("get_digest returned null");
            Bytes got = bytes_of(*d);
            c.same(mac ? "MAC" : "digest", got.data(), got.size(), [&] { return mac ? ref::hmac(a, k, msg) : ref::hash(a, msg, ref::is_xof(a) ? ref::digest_size(a) * 8 : 0); });
            done = true;
            if (v) checked++;
        }
        else if (what == 2) {
            c.note("%sreset", views[v]);
            c.op();
            with(v, [&](auto &e) {
                Gate g;
                e.reset();
            });
            msg.clear();
            done = false;
        }
        else {
            const AbstractHashEncoder &h = *o;
            const AlgorithmSelectable &s = *o;
            c.same("algorithm()", s.algorithm(), [&] { return (uint64_t)hashes[a].choice; });
            c.same("digest_size()", h.digest_size(), [&] { return (uint64_t)ref::digest_size(a); });
            c.same("block_size()", h.block_size(), [&] { return (uint64_t)block; });
            AbstractEncoder *e = o;
            c.require("a cast back gives the object", dynamic_cast<T *>(e) == o && dynamic_cast<const T *>(&s) == o && dynamic_cast<AbstractEncoder *>((AlgorithmSelectable *)o) == e);
        }
    }
    void destroy() override {
        switch (c.weighted({1, 3, 4, 2})) {
        case 0: return end<T>(o, name);
        case 1: return end<AbstractHashEncoder>(o, "AbstractHashEncoder");
        case 2: return end<AbstractEncoder>(o, "AbstractEncoder");
        default: return end<AlgorithmSelectable>(o, "AlgorithmSelectable");
        }
    }
};
// HOTP and TOTP
template <class T> struct OtpObj : Obj
{
    static constexpr bool timed = std::is_same_v<T, TOTP>;
    int a;
    T *o = nullptr;
    bool has;
    Bytes k;
    uint64_t ctr = 0;
    uint32_t interval = 30;
    int64_t &now, t0 = 0;
    explicit OtpObj(Case &c, int64_t &now) : Obj(c), now(now) {
        name = timed ? "TOTP" : "HOTP";
        a = otp_alg(c);
        pgfe_algorithm_choice ch = hashes[a].choice;
        int f = (int)c.pick(5);
        has = f != 0;
        if (has) k = otp_secret(c);
        if (f == 2) k = cut_at_nul(k);
        std::string s = gen::str(k);
        SequentialData sd = seq(k);
        if constexpr (timed) {
            interval = otp_interval(c);
            if (f == 0) o = make<T>(interval, ch);
            else if (f == 1) o = make<T>((const pgfe_encode_t *)k.data(), k.size(), interval, ch);
            else if (f == 2) o = make<T>(s.c_str(), interval, ch);
            else if (f == 3) o = make<T>(s, interval, ch);
            else o = make<T>(sd, interval, ch);
        }
        else {
            if (f == 0) o = make<T>(ch);
            else if (f == 1) o = make<T>((const pgfe_encode_t *)k.data(), k.size(), ch);
            else if (f == 2) o = make<T>(s.c_str(), ch);
            else if (f == 3) o = make<T>(s, ch);
            else o = make<T>(sd, ch);
        }
        c.note("%s %s, secret %s, interval %u", name, hashes[a].name, has ? show(k).c_str() : "none", interval);
    }
    void step() override {
        AbstractOTP &ab = *o;
        HOTP &ho = *o;
        switch (c.weighted({6, 2, 2, 1, timed ? 3 : 0})) {
        case 0: {
            unsigned d = otp_digits(c);
            int v = c.weighted({1, 2, 3, 2, 3});
            bool text = c.chance(1, 2), dflt = d == 6 && c.chance(1, 2);
            static const char *const views[] = {"", "HOTP ", "AbstractOTP ", "const HOTP ", "const AbstractOTP "};
            if (timed) {
                if (now < t0) now = t0;
                fake_now = now;
                ctr = (uint64_t)(now - t0) / interval;
            }
            c.note("%sgenerate%s %u at %lld", views[v], text ? "_str" : "", d, (long long)now);
            if (has) otp_defined(a, k, ctr);
            c.op();
            uint32_t n = 0;
            std::string s;
            bool thrown = false;
            auto call = [&](auto &x) {
                try {
                    Gate g;
                    if (text) s = dflt ? x.generate_str() : x.generate_str((uint8_t)d);
                    else n = dflt ? x.generate() : x.generate((uint8_t)d);
                }
                catch (NotInitializedException &) {
                    thrown = true;
                }
            };
            if (v == 0) call(*o);
            else if (v == 1) call(ho);
            else if (v == 2) call(ab);
            else if (v == 3) call((const HOTP &)ho);
            else call((const AbstractOTP &)ab);
            if (!has) {
                c.require("NotInitializedException without a secret", thrown);
                break;
            }
            if (thrown) c.fail("NotInitializedException though there is a secret");
            if (text) c.same("printed code", s, [&] { return ref::zero_pad(ref::hotp(a, k, ctr, d), d); });
            else c.same("code", n, [&] { return (uint64_t)ref::hotp(a, k, ctr, d); });
            if (v) checked++;
            break;
        }
        case 1: {
            k = otp_secret(c);
            int f = (int)c.pick(4);
            if (f == 1) k = cut_at_nul(k);
            c.note("AbstractOTP secret %s, form %d", show(k).c_str(), f);
            std::string s = gen::str(k);
            SequentialData sd = seq(k);
            c.op();
            Gate g;
            if (f == 0) ab.set_secret(k.data(), k.size());
            else if (f == 1) ab.set_secret(s.c_str());
            else if (f == 2) ab.set_secret(s);
            else ab.set_secret(sd);
            has = true;
            break;
        }
        case 2: {
            uint64_t n = c.weird64();
            bool base = c.pick(2);
            c.note("%scounter %llu", base ? "AbstractOTP " : "HOTP ", (unsigned long long)n);
            c.op();
            if (base) ab.set_counter(n);
            else ho.set_counter(n);
            if (!timed) ctr = n;
            break;
        }
        case 3: {
            const AlgorithmSelectable &s = *o;
            c.same("algorithm()", s.algorithm(), [&] { return (uint64_t)hashes[a].choice; });
            c.require("a cast back gives the object", dynamic_cast<T *>(&ab) == o && dynamic_cast<const T *>(&s) == o && (dynamic_cast<TOTP *>(&ho) != nullptr) == timed);
            break;
        }
        default:
            if constexpr (timed) {
                if (c.chance(1, 4)) {
                    interval = otp_interval(c);
                    o->set_interval(interval);
                }
                if (c.chance(1, 4)) {
                    t0 = otp_start(c, now);
                    o->set_initial_time((time_t)t0);
                }
                if (c.chance(2, 3)) now = c.pick(2) ? otp_now(c, interval) : now + (int64_t)c.pick(100);
                if (now < 0 || now > TIME_MAX) now = TIME_MAX;
                if (TIME_MAX != INT64_MAX && now - t0 > TIME_MAX) t0 = 0, o->set_initial_time(0);
                c.note("now %lld, interval %u, start %lld", (long long)now, interval, (long long)t0);
            }
        }
    }
    void destroy() override {
        switch (c.weighted({1, timed ? 3 : 0, 4, 2})) {
        case 0: return end<T>(o, name);
        case 1: return end<HOTP>(o, "HOTP");
        case 2: return end<AbstractOTP>(o, "AbstractOTP");
        default: return end<AlgorithmSelectable>(o, "AlgorithmSelectable");
        }
    }
};
struct BaseObj : Obj
{
    int b;
    AbstractBaseEncoding *o;
    explicit BaseObj(Case &c) : Obj(c) {
        b = (int)c.pick(ref::B_COUNT);
        name = b == ref::B16 ? "Base16" : b == ref::B32 || b == ref::B32HEX ? "Base32" : "Base64";
        if (b == ref::B16) o = make<Base16>();
        else if (b == ref::B32 || b == ref::B32HEX) o = make<Base32>(b == ref::B32HEX);
        else o = make<Base64>(b == ref::B64URL);
        c.note("codec %s", bases[b].name);
    }
    void step() override {
        Bytes x = c.data(64, c.chance(1, 12) ? 3000 : 400);
        int f = (int)c.pick(6);
        if (f == 1) x = cut_at_nul(x);
        std::string s = gen::str(x), t, e = f > 3 ? ref::encode(b, x) : "";
        SequentialData sd = seq(x);
        c.note("%s %s, form %d", f < 4 ? "encode" : "decode the text of", show(x).c_str(), f);
        c.op();
        if (f < 4) {
            {
                Gate g;
                t = f == 0 ? o->encode((const pgfe_encode_t *)x.data(), x.size()) : f == 1 ? o->encode(s.c_str()) : f == 2 ? o->encode(s) : o->encode(sd);
            }
            c.same("text", t, [&] { return ref::encode(b, x); });
        }
        else {
            Bytes got;
            {
                Gate g;
                SequentialData d = f == 4 ? o->decode(e.c_str()) : o->decode(e);
                got = bytes_of(d);
            }
            c.same("decoded bytes", got.data(), got.size(), [&] { return x; });
        }
        checked++;
    }
    void destroy() override {
        if (c.chance(3, 4)) return end<AbstractBaseEncoding>(o, "AbstractBaseEncoding");
        if (b == ref::B16) return end<Base16>(static_cast<Base16 *>(o), name);
        if (b == ref::B32 || b == ref::B32HEX) return end<Base32>(static_cast<Base32 *>(o), name);
        return end<Base64>(static_cast<Base64 *>(o), name);
    }
};
struct FishObj : Obj
{
    Bytes k;
    Blowfish *o;
    explicit FishObj(Case &c) : Obj(c) {
        name = "Blowfish";
        k = c.bytes(4 + c.pick(53));
        std::string s = gen::str(k);
        SequentialData sd = seq(k);
        int f = (int)c.pick(3);
        c.note("Blowfish key %s", show(k).c_str());
        o = f == 0 ? make<Blowfish>((const pgfe_encode_t *)k.data(), k.size()) : f == 1 ? make<Blowfish>((const std::string &)s) : make<Blowfish>((const SequentialData &)sd);
    }
    void step() override {
        AbstractSymmetricCrypter &ab = *o;
        Bytes t = c.data(8, 300);
        int f = (int)c.pick(4);
        bool enc = c.pick(2), base = c.chance(3, 4);
        if (f == 1) t = cut_at_nul(t);
        std::string s = gen::str(t);
        SequentialData sd = seq(t);
        c.note("%s%s %s, form %d", base ? "AbstractSymmetricCrypter " : "", enc ? "encrypt" : "decrypt", show(t).c_str(), f);
        c.op();
        Bytes got;
        auto call = [&](auto &x) {
            Gate g;
            SequentialData d = f == 0 ? (enc ? x.encrypt((const pgfe_encode_t *)t.data(), t.size()) : x.decrypt((const pgfe_encode_t *)t.data(), t.size()))
                : f == 1 ? (enc ? x.encrypt(s.c_str()) : x.decrypt(s.c_str())) : f == 2 ? (enc ? x.encrypt(s) : x.decrypt(s)) : (enc ? x.encrypt(sd) : x.decrypt(sd));
            got = bytes_of(d);
        };
        if (base) call(ab);
        else call(*o);
        c.same("text", got.data(), got.size(), [&] { ref::Blowfish r(k); return r.buffer(t, enc); });
        if (base) checked++;
    }
    void destroy() override {
        if (c.chance(3, 4)) end<AbstractSymmetricCrypter>(o, "AbstractSymmetricCrypter");
        else end<Blowfish>(o, name);
    }
};
unsigned history(Case &c) {
    FakeClock fc;
    int64_t now = otp_now(c, 30);
    fake_now = now;
    std::vector<std::unique_ptr<Obj>> pool;
    unsigned checked = 0;
    auto end = [&](size_t i) {
        pool[i]->destroy();
        checked += pool[i]->checked;
        pool.erase(pool.begin() + (long)i);
    };
    size_t steps = c.steps(2, 16);
    try {
        for (size_t i = 0; i < steps; i++) {
            int what = pool.empty() ? 0 : c.weighted({2, 7, 1});
            if (what == 0 && pool.size() < 4) {
                switch (c.pick(6)) {
                case 0: pool.emplace_back(new EncObj<HashEncoder>(c, false)); break;
                case 1: pool.emplace_back(new EncObj<HMACEncoder>(c, true)); break;
                case 2: pool.emplace_back(new OtpObj<HOTP>(c, now)); break;
                case 3: pool.emplace_back(new OtpObj<TOTP>(c, now)); break;
                case 4: pool.emplace_back(new BaseObj(c)); break;
                default: pool.emplace_back(new FishObj(c));
                }
            }
            else if (what == 2) end(c.pick(pool.size()));
            else pool[c.pick(pool.size())]->step();
        }
    }
    catch (Discard &) { // no such code is defined
    }
    while (!pool.empty()) end(c.pick(pool.size()));
    return checked;
}
} // namespace

PROP(X07, "at least two results come through a base class, and the objects go away through theirs") {
    std::vector<uint64_t> rec;
    // A static table that is built at its first use is no leak: what counts is a balance that grows again
    int64_t grown = 0;
    for (int round = 0; round < 2; round++) {
        Src s;
        if (round) {
            s.mode = Src::LIST;
            s.list = rec;
        }
        else {
            s.parent = c.src;
            s.rec = &rec;
        }
        Case k(&s);
        k.up = &c;
        k.deep = c.deep;
        k.life = c.life;
        k.want_desc = c.want_desc && !round;
        k.in_shared = !round;
        int64_t before = AllocGate::live();
        unsigned checked = history(k);
        grown = AllocGate::live() - before;
        if (!round && checked > 1) c.nontrivial();
        if (grown == 0) break;
    }
    if (grown > 0) c.fail("%lld allocations of the library are not freed although all objects are gone", (long long)grown);
    if (grown < 0) c.fail("%lld allocations too many are freed", (long long)-grown);
}
PROP_LIFE(X07)
