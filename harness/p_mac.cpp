// M01 M02 O01 O02: HMAC and the one-time-password functions
#include "common.hpp"
#include "libpgfe/otp/hotp.h"
#include "libpgfe/otp/totp.h"
#include "otp_gen.hpp"
using namespace api;
using namespace gen;

PROP_BODY(M01, "key and message are not empty") {
    int a = fixed_alg(c);
    const HmacApi &h = hmacs[a];
    size_t block = ref::block_size(a), n = ref::digest_size(a);
    Bytes k = hmac_key(c, block), m = c.bytes(msg_len(c, block));
    c.label("%s", h.name);
    c.label("key %s", k.empty() ? "empty" : k.size() < block ? "below the block" : k.size() == block ? "of one block" : "above the block");
    c.note("HMAC %s, key %s, message %s", h.name, show(k).c_str(), show(m).c_str());
    In ik(c, k.data(), k.size(), k.empty() && c.chance(1, 4)), im(c, m.data(), m.size(), m.empty() && c.chance(1, 4));
    Out o(c, n);
    int how = c.weighted({2, 2, 2});
    c.op();
    if (how == 0) h.oneshot(ik.u8(), k.size(), im.u8(), m.size(), o.u8());
    else if (how == 1) pgfe_hmac(h.choice, ik.u8(), k.size(), im.u8(), m.size(), o.u8());
    else {
        Ctx x(c, h.ctx_size);
        h.init(x.p());
        h.set_key(x.p(), ik.u8(), k.size());
        size_t off = 0;
        for (size_t p : split(c, m.size(), block, 6)) {
            h.update(x.p(), im.u8() + off, p);
            off += p;
        }
        h.digest(x.p(), o.u8());
        x.check();
    }
    static const char *const hows[] = {"own function", "pgfe_hmac", "context"};
    c.label("%s", hows[how]);
    o.check();
    ik.verify();
    im.verify();
    c.same("MAC", o.u8(), n, [&] { return ref::hmac(a, k, m); });
    if (!k.empty() && !m.empty()) c.nontrivial();
}
PROP_BIG(M01)

PROP_BODY(M02, "at least two MACs are asked for, or one after a second key was set") {
    struct Slot
    {
        int a;
        std::unique_ptr<Ctx> x;
        bool inited = false, open = false;
        Bytes key, msg;
        int keys = 0;
    };
    int n = c.chance(1, 40) ? 4 + (int)c.pick(30) : 1 + (int)c.pick(3);
    std::vector<Slot> s((size_t)n);
    for (auto &q : s) {
        q.a = fixed_alg(c);
        q.x.reset(new Ctx(c, hmacs[q.a].ctx_size));
    }
    if (n > 1 && c.chance(1, 2)) { // the same algorithm several times
        s[1].a = s[0].a;
        s[1].x.reset(new Ctx(c, hmacs[s[1].a].ctx_size));
    }
    size_t steps = n > 3 ? (size_t)n * (3 + c.pick(8)) : c.steps(3, 28);
    int macs = 0, rekeyed = 0;
    for (size_t i = 0; i < steps; i++) {
        size_t id = (size_t)c.pick((uint64_t)n);
        Slot &q = s[id];
        const HmacApi &h = hmacs[q.a];
        size_t block = ref::block_size(q.a);
        int what = c.weighted({4, 6, 5, 2});
        if (!q.inited) what = 3;
        if (what < 2 && !q.open) what = 2;
        switch (what) {
        case 0: { // digest
            Out o(c, ref::digest_size(q.a));
            c.note("%zu:digest", id);
            c.op();
            h.digest(q.x->p(), o.u8());
            o.check();
            c.same("MAC", o.u8(), ref::digest_size(q.a), [&] { return ref::hmac(q.a, q.key, q.msg); });
            q.open = false;
            macs++;
            if (q.keys > 1) rekeyed++;
            break;
        }
        case 1: {
            Bytes d = c.data(block, 700);
            c.note("%zu:update %s", id, show(d).c_str());
            In in(c, d.data(), d.size(), d.empty() && c.chance(1, 2));
            c.op();
            h.update(q.x->p(), in.u8(), d.size());
            in.verify();
            q.msg.insert(q.msg.end(), d.begin(), d.end());
            break;
        }
        case 2: {
            q.key = hmac_key(c, block);
            c.note("%zu:key %s%s", id, show(q.key).c_str(), q.msg.empty() ? "" : " (something was fed before)");
            In in(c, q.key.data(), q.key.size(), q.key.empty() && c.chance(1, 2));
            c.op();
            h.set_key(q.x->p(), in.u8(), q.key.size());
            in.verify();
            q.msg.clear();
            q.open = true;
            q.keys++;
            break;
        }
        default:
            c.note("%zu:init %s", id, h.name);
            c.op();
            h.init(q.x->p());
            q.key.clear();
            q.msg.clear();
            q.inited = q.open = true;
            q.keys = 0;
        }
        q.x->check();
    }
    c.label("%s", macs == 0 ? "no MAC" : macs == 1 ? "one MAC" : "several MACs");
    if (rekeyed) c.label("MAC after another key");
    if (macs > 1 || rekeyed) c.nontrivial();
}
PROP_BIG(M02)
PROP_LIFE(M02)

PROP_BODY(O01, "the secret is not empty and the counter is not zero") {
    int a = otp_alg(c);
    Bytes k = otp_secret(c);
    uint64_t ctr = otp_counter(c);
    unsigned digits = otp_digits(c);
    otp_edge(c, a, k, ctr, digits);
    int how = c.weighted({6, 2, 1, 1, 1});
    if (how) a = ref::A_SHA1;
    if (how > 1) digits = how == 2 ? 4 : how == 3 ? 6 : 8;
    otp_defined(a, k, ctr);
    In in(c, k);
    uint32_t got;
    c.note("HOTP %s, secret %s, counter %llu, %u digits, function %d", hashes[a].name, show(k).c_str(), (unsigned long long)ctr, digits, how);
    c.label("%s", hashes[a].name);
    c.label("%s", digits > 10 ? "above 10 digits" : digits == 10 ? "10 digits" : digits > 8 ? "9 digits" : "1-8 digits");
    c.op();
    switch (how) {
    case 0: got = pgfe_hotp_generic(hashes[a].choice, in.u8(), k.size(), ctr, (uint8_t)digits); break;
    case 1: got = pgfe_hotp(in.u8(), k.size(), ctr, (uint8_t)digits); break;
    case 2: got = pgfe_hotp_4digits(in.u8(), k.size(), ctr); break;
    case 3: got = pgfe_hotp_6digits(in.u8(), k.size(), ctr); break;
    default: got = pgfe_hotp_8digits(in.u8(), k.size(), ctr);
    }
    in.verify();
    c.same("HOTP code", got, [&] { return (uint64_t)ref::hotp(a, k, ctr, digits); });
    if (!k.empty() && ctr) c.nontrivial();
}
PROP_BIG(O01)

PROP_BODY(O02, "the secret is not empty and at least one whole interval has passed since the start time") {
    int a = otp_alg(c);
    Bytes k = otp_secret(c);
    unsigned digits = otp_digits(c);
    uint32_t interval = otp_interval(c);
    int how = c.weighted({6, 2, 1, 1, 1});
    if (how) a = ref::A_SHA1;
    if (how > 1) digits = how == 2 ? 4 : how == 3 ? 6 : 8;
    int64_t now = otp_now(c, interval), t0 = 0;
    if (!how) t0 = otp_start(c, now);
    uint64_t ec;
    unsigned ed;
    if (TIME_MAX == INT64_MAX && otp_edge(c, a, k, ec, ed)) {
        if (how < 2) digits = ed;
        if (interval > 0x0fffffff) interval = 30; // the time has to stay below 2^63
        now = (int64_t)(ec * interval + c.pick(interval));
        if (t0 > 0 || now > INT64_MAX + t0) t0 = 0;
        else now += t0;
        if (now < 0) t0 = 0, now = (int64_t)(ec * interval);
    }
    bool nodelta = c.chance(1, 4);
    otp_defined(a, k, (uint64_t)(now - t0) / interval);
    In in(c, k);
    uint32_t got;
    pgfe_totp_delta_t delta = -7, *dp = nodelta ? nullptr : &delta;
    c.note("TOTP %s, secret %s, now %lld, start %lld, interval %u, %u digits, function %d", hashes[a].name, show(k).c_str(), (long long)now,
           (long long)t0, interval, digits, how);
    c.label("%s", now > 0xffffffffLL ? "beyond 32 bits" : now > 0x7fffffffLL ? "beyond 31 bits" : "within 31 bits");
    c.label("%s", t0 < 0 ? "start before the epoch" : t0 ? "start after the epoch" : "start at the epoch");
    c.op();
    {
        FakeClock fc;
        fake_now = now;
        switch (how) {
        case 0: got = pgfe_totp_generic(hashes[a].choice, in.u8(), k.size(), (uint8_t)digits, interval, (time_t)t0, dp); break;
        case 1: got = pgfe_totp(in.u8(), k.size(), (uint8_t)digits, interval, dp); break;
        case 2: got = pgfe_totp_4digits(in.u8(), k.size(), interval, dp); break;
        case 3: got = pgfe_totp_6digits(in.u8(), k.size(), interval, dp); break;
        default: got = pgfe_totp_8digits(in.u8(), k.size(), interval, dp);
        }
    }
    in.verify();
    uint64_t passed = (uint64_t)(now - t0);
    c.same("TOTP code", got, [&] { return (uint64_t)ref::hotp(a, k, passed / interval, digits); });
    if (!nodelta) c.same("delta", (uint64_t)(int64_t)delta, [&] { return interval - passed % interval; });
    if (!k.empty() && passed >= interval) c.nontrivial();
}
PROP_BIG(O02)
