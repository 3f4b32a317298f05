// O03 O04: HOTP and TOTP objects
#include "libpgfe/exceptions.hpp"
#include "libpgfe/otp/hotp.hpp"
#include "libpgfe/otp/totp.hpp"
#include "otp_gen.hpp"
using namespace api;
using namespace gen;
using libpgfe::HOTP;
using libpgfe::SequentialData;
using libpgfe::TOTP;

namespace {
// Base32 text of the secret in some accepted spelling
std::string base32_text(Case &c, const Bytes &k) {
    std::string t = ref::encode(ref::B32, k);
    if (c.chance(1, 2)) while (!t.empty() && t.back() == '=') t.pop_back();
    int how = (int)c.pick(3);
    for (auto &x : t)
        if (how == 1 || (how == 2 && c.pick(2))) x = lower(x);
    if (c.chance(1, 5)) { // in groups, as people write them down
        size_t w = 1 + c.pick(9);
        char sep = " -\n\t"[c.pick(4)];
        std::string r;
        for (size_t i = 0; i < t.size(); i += w) {
            if (i) r += sep;
            r += t.substr(i, w);
        }
        t = r;
        c.label("Base32 secret in groups");
    }
    return t;
}
template <class O> void give_secret(Case &c, O &o, Bytes &secret) {
    Bytes k = otp_secret(c);
    int form = c.weighted({3, 3, 3, 3, 2, 2, 2, 2});
    c.op();
    switch (form) {
    case 0: {
        In in(c, k);
        o.set_secret(in.u8(), k.size());
        break;
    }
    case 1: {
        k = cut_at_nul(k);
        In in(c, gen::str(k));
        o.set_secret(in.cs());
        break;
    }
    case 2: {
        std::string s = gen::str(k);
        o.set_secret(s);
        c.require("the argument is unchanged", s == gen::str(k));
        break;
    }
    case 3: {
        SequentialData d = gen::seq(k);
        o.set_secret(d);
        c.require("the argument is unchanged", bytes_of(d) == k);
        break;
    }
    case 4: {
        In in(c, base32_text(c, k));
        o.set_secret_from_base32(in.cs());
        break;
    }
    case 5: {
        std::string s = base32_text(c, k);
        o.set_secret_from_base32(s);
        break;
    }
    case 6: {
        In in(c, base32_text(c, k));
        o.set_secret(in.cs(), true);
        break;
    }
    default: {
        std::string s = base32_text(c, k);
        o.set_secret(s, true);
    }
    }
    static const char *const names[] = {"bytes", "C string", "std::string", "sequence", "Base32 C string", "Base32 std::string", "Base32 C string by flag", "Base32 std::string by flag"};
    c.note("secret %s as %s", show(k).c_str(), names[form]);
    c.label("secret as %s", names[form]);
    secret = k;
}
// Constructs an HOTP or TOTP with some constructor
template <class O, class... A> void build(Case &c, Place<O> &p, bool &has, Bytes &secret, A... rest) {
    int form = c.weighted({3, 2, 2, 2, 2});
    has = form != 0;
    Bytes k;
    if (form) k = otp_secret(c);
    if (form == 2) k = cut_at_nul(k);
    c.note("constructor %d, secret %s", form, show(k).c_str());
    c.op();
    switch (form) {
    case 0: p.make(rest...); break;
    case 1: {
        In in(c, k);
        p.make(in.u8(), k.size(), rest...);
        break;
    }
    case 2: {
        In in(c, gen::str(k));
        p.make(in.cs(), rest...);
        break;
    }
    case 3: {
        std::string s = gen::str(k);
        p.make(s, rest...);
        break;
    }
    default: {
        SequentialData d = gen::seq(k);
        p.make(d, rest...);
    }
    }
    secret = k;
}
std::string printed(int a, const Bytes &k, uint64_t ctr, unsigned digits) { return ref::zero_pad(ref::hotp(a, k, ctr, digits), digits); }
} // namespace

PROP_BODY(O03, "at least two codes are generated with a change of clock, interval, start time or secret between them") {
    int a = otp_alg(c);
    pgfe_algorithm_choice ch = hashes[a].choice;
    uint32_t interval = otp_interval(c);
    FakeClock fc;
    int64_t now = otp_now(c, interval), t0 = 0;
    fake_now = now;
    bool has;
    Bytes secret;
    Place<TOTP> p(c);
    c.note("TOTP %s, interval %u, now %lld", hashes[a].name, interval, (long long)now);
    if (c.chance(1, 8)) { // default arguments
        a = ref::A_SHA1;
        interval = 30;
        build(c, p, has, secret);
    }
    else if (c.chance(1, 6)) {
        a = ref::A_SHA1;
        build(c, p, has, secret, interval);
    }
    else build(c, p, has, secret, interval, ch);
    TOTP &o = *p;
    bool generated = false;
    int64_t window_end = 0;
    size_t steps = c.steps(4, 24);
    int gens = 0, moved = 0, changed = 0;
    for (size_t i = 0; i < steps; i++) {
        switch (c.weighted({8, 8, 2, 2, 2, 3, 2})) {
        case 0: { // a code
            unsigned d = otp_digits(c);
            bool as_text = c.chance(1, 3);
            c.note("generate%s %u", as_text ? "_str" : "", d);
            uint64_t ctr = (uint64_t)(now - t0) / interval;
            if (has) otp_defined(a, secret, ctr);
            c.op();
            if (!has) {
                bool thrown = false;
                try {
                    if (as_text) o.generate_str((uint8_t)d);
                    else o.generate((uint8_t)d);
                }
                catch (libpgfe::NotInitializedException &) {
                    thrown = true;
                }
                c.require("NotInitializedException without a secret", thrown);
                break;
            }
            int through = c.weighted({5, 1, 1, 1});
            static const char *const views[] = {"", "HOTP ", "AbstractOTP ", "const AbstractOTP "};
            if (through) c.note("%sobject", views[through]), c.label("code through a base class");
            bool dflt = d == 6 && c.chance(1, 2);
            auto call = [&](auto &x) {
                if (as_text) {
                    std::string s = dflt ? x.generate_str() : x.generate_str((uint8_t)d);
                    c.same("printed code", s, [&] { return printed(a, secret, ctr, d); });
                }
                else {
                    uint32_t v = dflt ? x.generate() : x.generate((uint8_t)d);
                    c.same("code", v, [&] { return (uint64_t)ref::hotp(a, secret, ctr, d); });
                }
            };
            if (through == 0) call(o);
            else if (through == 1) call((HOTP &)o);
            else if (through == 2) call((libpgfe::AbstractOTP &)o);
            else call((const libpgfe::AbstractOTP &)o);
            window_end = t0 + (int64_t)((ctr + 1) * interval);
            generated = true;
            gens++;
            if (gens > 1 && changed) moved++;
            changed = 0;
            break;
        }
        case 1: { // the clock moves
            int64_t d;
            switch (c.weighted({3, 3, 2, 2, 1})) {
            case 0: d = (int64_t)c.pick(3); break;
            case 1: { // to the edge of a window
                int64_t edge = t0 + ((now - t0) / interval + (int64_t)c.pick(3)) * interval;
                d = edge - now + (int64_t)c.pick(3) - 1;
                break;
            }
            case 2: d = (int64_t)(interval * (c.pick(6))) - (int64_t)(2 * (int64_t)interval); break;
            case 3: d = (int64_t)c.pick(2001) - 1000; break;
            default: d = otp_now(c, interval) - now;
            }
            now += d;
            if (now < 0) now = 0;
            if (now < t0) now = t0;
            if (TIME_MAX != INT64_MAX) {
                if (now > TIME_MAX) now = TIME_MAX;
                if (now - t0 > TIME_MAX) now = t0 + TIME_MAX;
            }
            fake_now = now;
            c.note("now %lld", (long long)now);
            changed = 1;
            break;
        }
        case 2:
            interval = otp_interval(c);
            c.note("interval %u", interval);
            c.op();
            o.set_interval(interval);
            changed = 1;
            break;
        case 3:
            t0 = otp_start(c, now);
            c.note("start %lld", (long long)t0);
            c.op();
            o.set_initial_time((time_t)t0);
            changed = 1;
            break;
        case 4:
            give_secret(c, o, secret);
            has = true;
            changed = 1;
            break;
        case 5: {
            if (generated && TIME_MAX != INT64_MAX && window_end - now > TIME_MAX) break; // it does not fit
            c.op();
            if (!generated) { // what they say before the first code is unspecified, but may not vary
                int64_t v[2] = {(int64_t)o.remaining_time(), (int64_t)o.update_time()};
                c.observe(v, sizeof v);
                break;
            }
            int64_t r = (int64_t)o.remaining_time();
            c.note("remaining_time %lld", (long long)r);
            c.same("remaining time", (uint64_t)r, [&] { return (uint64_t)(window_end - now); });
            break;
        }
        default:
            c.op();
            c.same("interval()", o.interval(), [&] { return (uint64_t)interval; });
            c.same("initial_time()", (uint64_t)o.initial_time(), [&] { return (uint64_t)t0; });
            c.same("algorithm()", o.algorithm(), [&] { return (uint64_t)hashes[a].choice; });
        }
    }
    c.label("%s", gens > 4 ? "5 or more codes" : gens > 1 ? "2-4 codes" : "fewer than 2 codes");
    if (moved) c.nontrivial();
}
PROP_BIG(O03)
PROP_LIFE(O03)

PROP_BODY(O04, "a code is generated and checked") {
    int a = otp_alg(c);
    Place<HOTP> p(c);
    bool has, changed_secret = false;
    Bytes secret;
    uint64_t ctr = 0;
    c.note("HOTP %s", hashes[a].name);
    if (a == ref::A_SHA1 && c.chance(1, 2)) build(c, p, has, secret);
    else build(c, p, has, secret, hashes[a].choice);
    HOTP &o = *p;
    libpgfe::AbstractOTP &ab = o;
    size_t steps = c.steps(2, 14);
    for (size_t i = 0; i < steps; i++) {
        switch (c.weighted({8, 4, 4, 2})) {
        case 0: {
            unsigned d = otp_digits(c);
            bool as_text = c.chance(1, 2), base = c.chance(1, 3);
            c.note("%sgenerate%s %u", base ? "interface " : "", as_text ? "_str" : "", d);
            if (has) otp_defined(a, secret, ctr);
            c.op();
            if (!has) {
                bool thrown = false;
                try {
                    if (as_text) base ? ab.generate_str((uint8_t)d) : o.generate_str((uint8_t)d);
                    else base ? ab.generate((uint8_t)d) : o.generate((uint8_t)d);
                }
                catch (libpgfe::NotInitializedException &) {
                    thrown = true;
                }
                c.require("NotInitializedException without a secret", thrown);
                c.label("no secret");
                break;
            }
            bool dflt = d == 6 && c.chance(1, 2);
            if (as_text) {
                std::string s = base ? (dflt ? ab.generate_str() : ab.generate_str((uint8_t)d)) : (dflt ? o.generate_str() : o.generate_str((uint8_t)d));
                c.same("printed code", s, [&] { return printed(a, secret, ctr, d); });
                if (c.oracle && s[0] == '0') c.label("leading zero");
            }
            else {
                uint32_t v = base ? (dflt ? ab.generate() : ab.generate((uint8_t)d)) : (dflt ? o.generate() : o.generate((uint8_t)d));
                c.same("code", v, [&] { return (uint64_t)ref::hotp(a, secret, ctr, d); });
            }
            c.nontrivial();
            break;
        }
        case 1:
            ctr = otp_counter(c);
            c.note("counter %llu", (unsigned long long)ctr);
            c.op();
            if (c.chance(1, 3)) ab.set_counter(ctr);
            else o.set_counter(ctr);
            break;
        case 2:
            if (c.chance(1, 4)) { // through the interface
                Bytes k = otp_secret(c);
                int f = (int)c.pick(4);
                if (f == 1) k = cut_at_nul(k);
                In in(c, gen::str(k));
                std::string s = gen::str(k);
                SequentialData sd = gen::seq(k);
                c.note("interface secret %s, form %d", show(k).c_str(), f);
                c.op();
                if (f == 0) ab.set_secret(in.u8(), k.size());
                else if (f == 1) ab.set_secret(in.cs());
                else if (f == 2) ab.set_secret(s);
                else ab.set_secret(sd);
                secret = k;
            }
            else give_secret(c, o, secret);
            if (has) changed_secret = true;
            has = true;
            break;
        default:
            c.same("algorithm()", o.algorithm(), [&] { return (uint64_t)hashes[a].choice; });
        }
    }
    if (changed_secret) c.label("secret replaced");
}
PROP_BIG(O04)
PROP_LIFE(O04)
