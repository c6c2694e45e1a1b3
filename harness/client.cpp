// P15 - P23: the STUN client under random schedules and responses.
#include "clientlib.hpp"
#include <cmath>
#include <set>

using namespace cl;

namespace {

Settings random_settings(Rng& r) {
    Settings s;
    s.fingerprint = r.coin();
    s.rc = r.chance(1, 4) ? 7 : (unsigned)r.below(9);
    s.rm = r.chance(1, 4) ? 16 : 1 + (unsigned)r.below(20);
    s.rto = r.chance(1, 4) ? 500000 : r.chance(1, 3) ? 1 + (us)r.below(50) : (us)r.range(1000, 3000000);
    s.max_rto = r.chance(1, 3) ? (us)r.range(1, 4 * s.rto) : 0;
    if (r.chance(1, 3)) { s.server_error = r.chance(1, 6) ? 1 : (us)r.range(1, 3 * s.rto + 10); s.server_error_max = (unsigned)r.below(5); }
    s.allow_alternate = r.chance(1, 4);
    // Timers of very different lengths: from microseconds to weeks.
    if (r.chance(1, 6)) {
        switch (r.below(3)) {
        case 0: s.rm = (unsigned)r.range(100, 200000); break;
        case 1: s.server_error = (us)r.range(1, 100) * (us)r.range(1, 3000) * 1000000; s.server_error_max = 1 + (unsigned)r.below(4); break;
        default: s.rto = (us)r.range(1000000, 1000000ll * 86400); if (s.max_rto > 0) { s.max_rto = (us)r.range(1, 8 * s.rto); } break;
        }
    }
    return s;
}

#define NOT_BROKEN(d) CHECK((d).broken.empty(), "protocol", (d).broken << "; trace: " << (d).show_trace())

// Determined, not yet reported outcomes: what the oracle knows about each transaction.
struct Life {
    std::vector<bool> live;      // not determined
    std::vector<Outcome> final;  // determined by a response
    std::vector<us> final_at;
    void grow(size_t n) { live.resize(n, true); final.resize(n); final_at.resize(n, -1); }
    // A timeout reported by the client determines, too.
    void sync(const Driver& d) { grow(d.txns.size()); for (size_t i = 0; i < d.txns.size(); ++i) { if (!d.txns[i].live()) { live[i] = false; } } }
};

// A step of a random life of a client: returns what happened for the trace.
struct World {
    Driver d;
    Life life;
    Rng r;
    unsigned granted_5xx = 0;
    World(const Settings& s, uint64_t base, uint64_t seed) : d(s, base, seed), r(seed ^ 0x5555) {}
};

us step_time(Rng& r, const Driver& d) {
    us sleep = d.last.type == Ev::SLEEP && d.last.sleep > 0 ? d.last.sleep : d.settings.rto;
    switch (r.below(6)) {
    case 0: return 0;
    case 1: return (us)r.below((uint64_t)sleep);
    case 2: case 3: return sleep;
    case 4: return sleep + (us)r.below((uint64_t)sleep + 1);
    default: return sleep > 1 ? sleep - 1 : sleep;
    }
}

}

// ---------------------------------------------------------------- P15
namespace {
void exactly_once(vf::Ctx& c, bool many) {
    Settings s = random_settings(c.rng);
    Driver d(s, random_base(c.rng), c.rng.u64());
    Life life;
    unsigned steps = 20 + (unsigned)c.rng.below(many ? 200 : 60);
    std::vector<Bytes> old; // responses seen before
    unsigned max_txns = many ? 40 : 8;
    vf::Hash h;
    auto fresh_poll = [&] {
        if (c.rng.chance(1, 3)) { d.step(); } else { d.poll(); }
        life.sync(d);
    };
    while (steps--) {
        NOT_BROKEN(d);
        unsigned what = (unsigned)c.rng.below(10);
        h.add(what).add((uint64_t)d.now);
        if (what < 3 && d.txns.size() < max_txns) {
            TxSpec t;
            t.path = random_path(c.rng);
            random_auth(c.rng, t);
            if (c.rng.chance(1, 12)) { // cannot be built: too large
                t.unknown.emplace_back(stun::AttributeType::from_uint16(0x7001), view(Bytes(70000, 1)));
                size_t before = d.trace.size();
                CHECK(d.create(t) < 0, "oversize", "transaction with 70000 bytes was started");
                CHECK(d.trace.size() == before, "oversize", "something happened");
                EV("refused transactions");
            } else if (t.auth && c.rng.chance(1, 10)) { // hash fails
                t.hash = [](const crypto::SHA1Hash::Input&) -> crypto::SHA1Hash::Result { return std::make_error_code(std::errc::io_error); };
                CHECK(d.create(t) < 0, "hash", "transaction was started although its integrity could not be computed");
                EV("refused transactions");
            } else {
                CHECK(d.create(t) >= 0, "create", "transaction is refused: " << d.create_error);
                EV("transactions");
            }
            life.sync(d);
        } else if (what < 7 && !d.txns.empty()) {
            size_t i = c.rng.below(d.txns.size());
            Bytes p;
            if (!old.empty() && c.rng.chance(1, 4)) { p = c.rng.pick(old); EV("duplicated responses"); }
            else {
                Reply rep = random_reply(c.rng, d.txns[i]);
                if (c.rng.chance(1, 5)) { rep.sign = !rep.sign; EV("forged responses"); }
                if (c.rng.chance(1, 10) && !rep.key.empty()) { rep.key[0] ^= 1; EV("forged responses"); }
                if (c.rng.chance(1, 10)) { rep.tid[c.rng.below(12)] ^= (uint8_t)(1u << c.rng.below(8)); EV("responses to nobody"); }
                p = rep.bytes();
                if (c.rng.chance(1, 10)) { ref::mutate(c.rng, p); }
                old.push_back(p);
            }
            h.add(p);
            auto dec = ref::decode(p);
            Verdict v = classify(p, d.txns, life.live, s);
            auto err = d.respond(p, c.rng.chance(1, 4));
            if (v.unspecified) { return; }
            // A response to a transaction with a known outcome is refused as unknown.
            bool nobody = v.type == Verdict::ERROR && v.ec == stun::make_error_code(stun::ClientError::transaction_not_found);
            if (nobody) {
                CHECK(err.is_some() && err.unwrap() == v.ec, "not.refused", "response to a transaction that is over or unknown is " << (err.is_some() ? "refused with " + err.unwrap().message() : std::string("accepted")) << ": " << vf::hex(p) << "; trace " << d.show_trace());
                for (auto& t : d.txns) { if (t.tid == dec.tid) { EV("responses after the outcome"); break; } }
            }
            if (v.type == Verdict::FINAL && err.is_none()) { life.live[v.txn] = false; life.final[v.txn] = v.outcome; life.final_at[v.txn] = d.now; EV("outcomes determined"); }
            if (v.type == Verdict::RETRY && err.is_none()) { /* either a retry or a failure */
                // Limit of retries is the subject of P20: learn it from the client.
                d.poll();
                life.sync(d);
            }
        } else {
            d.now += step_time(c.rng, d);
            fresh_poll();
        }
    }
    // To the end: random times, then by sleeps.
    for (unsigned i = 0; i < 5; ++i) { d.now += step_time(c.rng, d); fresh_poll(); }
    us begin = d.now;
    bool idle = d.drain();
    life.sync(d);
    NOT_BROKEN(d);
    CHECK(idle, "never.idle", "client is not idle after " << d.now - begin << "us: " << d.show_trace());
    for (size_t i = 0; i < d.txns.size(); ++i) {
        auto& t = d.txns[i];
        CHECK(t.outcomes == 1, "outcomes", "transaction #" << t.handle << " has " << t.outcomes << " outcomes: " << d.show_trace());
        vf::ev(std::string("outcome: ") + kind_name(t.outcome.kind));
    }
    // And nothing after that.
    size_t n = d.trace.size();
    for (unsigned i = 0; i < 10; ++i) { d.now += (us)c.rng.below(100) * s.rto; d.poll(); CHECK(d.last.type == Ev::IDLE, "not.silent", "client is not idle any more: " << d.last.show()); }
    CHECK(d.trace.size() == n, "not.silent", "client did something after everything was over: " << d.show_trace());
    for (auto& p : old) { d.respond(p); d.poll(); }
    NOT_BROKEN(d);
    CHECK(d.trace.size() == n, "not.silent", "a late response had an effect: " << d.show_trace());
    c.distinct(h);
    c.sample(d.show_trace(6));
}
}
GROUP("P15", "histories", 3000, 200000) { exactly_once(c, false); }
GROUP("P15", "many transactions", 300, 20000) { exactly_once(c, true); }

// Crowds: everything is determined before anything is asked for.
GROUP("P15", "crowd", 48, 2000) {
    Settings s = random_settings(c.rng);
    s.server_error = -1;
    static const unsigned sizes[] = {255, 256, 257, 300, 511, 513, 600, 1000, 1023, 1025, 2049, 4097};
    unsigned n = sizes[c.idx % 12] + (unsigned)c.rng.below(3);
    Driver d(s, random_base(c.rng), c.rng.u64());
    std::vector<Outcome> want(n);
    bool early = c.rng.chance(1, 3);  // answered before it was ever sent
    bool silent = c.rng.chance(1, 4); // nobody answers
    for (unsigned i = 0; i < n; ++i) {
        TxSpec t;
        t.path = random_path(c.rng);
        CHECK(d.create(t) == (int)i, "create", "transaction " << i << " is refused: " << d.create_error);
        if (c.rng.chance(1, 50)) { d.now += 1; }
    }
    EVN("transactions", n);
    if (!early) { d.poll(); NOT_BROKEN(d); for (auto& t : d.txns) { CHECK(d.now == 0 ? t.sends.size() == 1 : t.sends.size() >= 1, "crowd.sent", "transaction of " << n << " created at once was sent " << t.sends.size() << " times"); } }
    std::vector<unsigned> order(n);
    for (unsigned i = 0; i < n; ++i) { order[i] = i; }
    for (unsigned i = n; i > 1; --i) { std::swap(order[i - 1], order[c.rng.below(i)]); }
    std::vector<bool> live(n, true);
    if (!silent) {
        for (unsigned i : order) {
            if (c.rng.chance(1, 16)) { continue; } // times out
            Reply rep = c.rng.chance(1, 3) ? error_reply(d.txns[i], 400 + (unsigned)c.rng.below(19)) : success_reply(d.txns[i], ref::random_addr(c.rng));
            Bytes p = rep.bytes();
            auto err = d.respond(p);
            CHECK(err.is_none(), "crowd.refused", "response to one of " << n << " transactions is refused: " << err.unwrap().message());
            std::vector<Txn> one{d.txns[i]};
            want[i] = classify(p, one, std::vector<bool>{true}, s).outcome;
            live[i] = false;
            if (c.rng.chance(1, 20)) { auto again = d.respond(p); CHECK(again.is_some() && again.unwrap() == stun::make_error_code(stun::ClientError::transaction_not_found), "not.refused", "second response to a transaction that is over is not refused as unknown"); EV("responses after the outcome"); }
        }
    }
    bool at_once = c.rng.coin();
    if (!at_once) { d.now += 200ll * 1000000 * 1000; }
    CHECK(d.drain(400000), "never.idle", "client with " << n << " transactions is never idle");
    NOT_BROKEN(d);
    for (unsigned i = 0; i < n; ++i) {
        auto& t = d.txns[i];
        CHECK(t.outcomes == 1, "outcomes", "transaction " << i << " of " << n << " created at once has " << t.outcomes << " outcomes");
        if (live[i]) { CHECK(t.outcome.kind == K_TIMEOUT, "crowd.outcome", "outcome without response: " << t.outcome.show()); }
        else { CHECK(t.outcome.same(want[i]), "crowd.outcome", "outcome " << t.outcome.show() << " instead of " << want[i].show()); }
        EV("outcomes in crowds");
    }
    c.distinct(vf::Hash().add(n).add(d.trace.size()).add((uint64_t)d.now));
}

// ---------------------------------------------------------------- P16
// Two clients live the same life, one of them meets forged responses in addition.
GROUP("P16", "twins", 3000, 200000) {
    Settings s = random_settings(c.rng);
    s.server_error = -1;
    uint64_t base = random_base(c.rng), seed = c.rng.u64();
    Driver d(s, base, seed), twin(s, base, seed);
    Life life;
    unsigned steps = 15 + (unsigned)c.rng.below(40);
    vf::Hash h;
    auto same = [&](const char* when) {
        NOT_BROKEN(d);
        CHECK(d.trace == twin.trace, "trace", "forged responses changed the life of the client (" << when << "): " << d.show_trace() << " WITHOUT: " << twin.show_trace());
        CHECK(d.last.type == twin.last.type && d.last.sleep == twin.last.sleep, "sleep", "forged responses changed the schedule: " << d.last.show() << " instead of " << twin.last.show());
    };
    auto forge = [&](size_t i) {
        const Txn& t = d.txns[i];
        Reply rep = random_reply(c.rng, t);
        Bytes p;
        const char* how = "";
        switch (c.rng.below(6)) {
        case 0: rep.sign = false; rep.after.clear(); p = rep.bytes(); how = "not signed"; break;
        case 1: { // another key
            Bytes k = rep.key;
            if (c.rng.coin() || k.empty()) { k = c.rng.bytes(c.rng.below(30)); } else { k[c.rng.below(k.size())] ^= (uint8_t)(1u << c.rng.below(8)); }
            rep.key = k; p = rep.bytes(); how = "other key"; break;
        }
        case 2: case 3: { // protected byte changed
            p = rep.bytes();
            auto dec = ref::decode(p);
            if (dec.integrity_off == 0) { return; }
            p[c.rng.coin() ? dec.integrity_off + 4 + c.rng.below(20) : c.rng.below(dec.integrity_off)] ^= (uint8_t)(1u << c.rng.below(8));
            ref::refresh_fingerprint(p);
            how = "changed";
            break;
        }
        case 4: { // garbage integrity first, the right one ignored after it
            rep.sign = false;
            rep.after.clear();
            rep.attrs.emplace_back(ref::A_INTEGRITY, c.rng.bytes(20));
            rep.fingerprint = false;
            ref::Enc e(ref::msg_type(rep.cls, rep.method), rep.tid);
            for (auto& [ty, v] : rep.attrs) { e.attr(ty, v); }
            e.integrity(t.spec.key);
            p = e.bytes();
            how = "second integrity";
            break;
        }
        default: { // signature of the request itself or of another response
            p = rep.bytes();
            auto dec = ref::decode(p);
            Reply other = random_reply(c.rng, t);
            Bytes q = other.bytes();
            auto dq = ref::decode(q);
            if (!dec.ok || !dq.ok || dec.integrity_off == 0 || dq.integrity_off == 0) { return; }
            std::copy(q.begin() + dq.integrity_off + 4, q.begin() + dq.integrity_off + 24, p.begin() + dec.integrity_off + 4);
            ref::refresh_fingerprint(p);
            how = "replayed integrity";
            break;
        }
        }
        Verdict v = classify(p, d.txns, life.live, s);
        if (v.unspecified || v.type != Verdict::ERROR) { return; } // happens to be right, or it is the allowed exception
        auto err = d.respond(p, c.rng.coin());
        CHECK(err.is_some(), "accepted", "forged response (" << how << ") is accepted: " << vf::hex(p) << " for a transaction with key " << vf::hex(t.spec.key));
        if (v.ec) {
            CHECK(err.unwrap() == v.ec, "error", "forged response (" << how << ") is refused with " << err.unwrap().message() << " instead of " << v.ec.message() << ": " << vf::hex(p));
        }
        vf::ev(std::string("forged: ") + how);
        h.add(p);
        c.distinct(vf::Hash().add(p));
    };
    while (steps--) {
        unsigned what = (unsigned)c.rng.below(10);
        if (what < 2 && d.txns.size() < 6) {
            TxSpec t;
            t.path = random_path(c.rng, 3);
            random_auth(c.rng, t, 5, 6);
            d.create(t); twin.create(t);
            life.sync(d);
        } else if (what < 6 && !d.txns.empty()) {
            size_t i = c.rng.below(d.txns.size());
            if (d.txns[i].spec.auth) { forge(i); }
        } else if (what == 6 && !d.txns.empty()) { // a response that is right
            size_t i = c.rng.below(d.txns.size());
            Reply rep = random_reply(c.rng, d.txns[i]);
            if (c.rng.chance(1, 6) && s.allow_alternate) { rep = error_reply(d.txns[i], 300); rep.attrs.emplace_back(ref::A_ALTERNATE, ref::addr_value(ref::random_addr(c.rng))); rep.sign = false; }
            Bytes p = rep.bytes();
            Verdict v = classify(p, d.txns, life.live, s);
            if (v.unspecified) { continue; }
            bool parsed = c.rng.chance(1, 3);
            auto err = d.respond(p, parsed);
            twin.respond(p, parsed);
            if (v.type != Verdict::ERROR) {
                CHECK(err.is_none(), "refused", "authentic response is refused (" << err.unwrap().message() << "): " << vf::hex(p) << " for key " << vf::hex(d.txns[i].spec.key));
                if (v.type == Verdict::FINAL) {
                    life.live[v.txn] = false; life.final[v.txn] = v.outcome;
                    if (d.txns[i].spec.auth) { EV("completed by authentic responses"); if (!rep.sign) { EV("unsigned alternate server allowed"); } } else { EV("completed without credentials"); }
                }
            }
        } else {
            us dt = step_time(c.rng, d);
            d.now += dt; twin.now += dt;
            d.poll(); twin.poll();
            same("on the way");
            life.sync(d);
        }
    }
    d.drain(); twin.drain();
    same("at the end");
    for (size_t i = 0; i < d.txns.size(); ++i) {
        auto& t = d.txns[i];
        // Completed by nothing but authentic responses.
        if (life.final[i].kind != K_NONE) { CHECK(t.outcome.same(life.final[i]), "outcome", "outcome " << t.outcome.show() << " instead of " << life.final[i].show()); }
        else { CHECK(t.outcome.kind == K_TIMEOUT, "outcome.timeout", "outcome " << t.outcome.show() << " without an authentic response"); }
    }
    c.sample(d.show_trace(6));
}

// The message was parsed by the application: what counts is whether the bytes that come
// with it are signed.
GROUP("P16", "parsed elsewhere", 3000, 120000) {
    Settings s = random_settings(c.rng);
    s.rc = 7; s.max_rto = 0;
    s.server_error_max = 40;
    Driver d(s, random_base(c.rng), c.rng.u64());
    TxSpec t;
    random_auth(c.rng, t, 1, 1);
    d.create(t); d.create(t);
    d.poll();
    if (c.rng.coin()) { random_past(c.rng, d); }
    for (unsigned k = 0; k < 6; ++k) {
        Reply rep = random_reply(c.rng, d.txns[0]), other = any_success(c.rng, d.txns[c.rng.below(2)]);
        if (rep.cls == 3) { rep = error_reply(d.txns[0], 400); }
        if (c.rng.chance(1, 4)) { rep.sign = false; rep.after.clear(); } else { rep.key.push_back((uint8_t)(1 + c.rng.below(255))); }
        Bytes p = rep.bytes(), q;
        if (ref::decode(p).lenient || !ref::decode(p).ok) { continue; }
        switch (c.rng.below(5)) {
        case 0: break; // nothing
        case 1: q = p; break;
        case 2: q = other.bytes(); break; // authentic, but another message
        case 3: q.assign(p.begin(), p.begin() + (long)c.rng.below(p.size())); break;
        default: q = c.rng.bytes(c.rng.below(200));
        }
        vf::Exact x(p), y(q, c.rng.below(4));
        stun::ParseStat st;
        auto r = stun::Message::parse(view(x), st);
        CHECK(r.is_ok(), "parse", "response is not parsed: " << vf::hex(p));
        auto err = d.client().response(d.time(), view(y), std::move(r.unwrap()));
        x.release(); y.release();
        size_t before = d.trace.size();
        d.poll();
        CHECK(err.is_err(), "accepted.parsed", "forged response that was parsed before is accepted: " << vf::hex(p) << " with bytes " << vf::hex(q));
        CHECK(d.trace.size() == before && d.live() == 2, "effect", "forged response has an effect: " << d.show_trace());
        EV("forged and parsed elsewhere");
        if (q.empty()) { EV("parsed elsewhere, no bytes"); }
        c.distinct(vf::Hash().add(p).add(q));
    }
    for (size_t i = 0; i < 2; ++i) { // what is authentic still arrives
        CHECK(d.respond(any_success(c.rng, d.txns[i]).bytes(), c.rng.coin()).is_none(), "refused", "authentic response is refused after forged ones");
        d.poll();
        CHECK(!d.txns[i].live() && d.txns[i].outcome.kind == K_OK, "outcome", "no success after an authentic response");
    }
    NOT_BROKEN(d);
}

// The hash function of the application fails while a response is checked: what
// cannot be checked is not accepted, and nothing else changes.
namespace {
thread_local int hash_fails_at = -1; // counts calls down
thread_local std::error_code hash_error;
crypto::SHA1Hash::Result unreliable_hash(const crypto::SHA1Hash::Input& in) {
    if (hash_fails_at >= 0 && hash_fails_at-- == 0) { return hash_error; }
    return crypto::openssl::sha1(in);
}
}
GROUP("P16", "failing hash", 3000, 150000) {
    Settings s = random_settings(c.rng);
    s.server_error = -1;
    uint64_t base = random_base(c.rng), seed = c.rng.u64();
    Driver d(s, base, seed), twin(s, base, seed);
    hash_fails_at = -1;
    unsigned n = 1 + (unsigned)c.rng.below(3);
    for (unsigned i = 0; i < n; ++i) {
        TxSpec t;
        t.path = random_path(c.rng);
        random_auth(c.rng, t, 1, 1);
        t.hash = unreliable_hash;
        CHECK(d.create(t) >= 0 && twin.create(t) >= 0, "create", d.create_error);
    }
    auto both = [&](us dt) { d.now += dt; twin.now += dt; d.poll(); twin.poll(); CHECK(d.trace == twin.trace && d.last.sleep == twin.last.sleep, "trace", "a response that could not be checked changed the life of the client: " << d.show_trace() << " WITHOUT: " << twin.show_trace()); };
    both(0);
    vf::Hash h;
    std::vector<bool> done(n, false);
    for (unsigned k = 2 + (unsigned)c.rng.below(8); k > 0; --k) {
        unsigned i = (unsigned)c.rng.below(n);
        if (c.rng.chance(1, 3)) { both(step_time(c.rng, d)); }
        if (!d.txns[i].live() || done[i]) { continue; }
        Reply rep = c.rng.chance(1, 3) ? error_reply(d.txns[i], c.rng.one_of<unsigned>({400, 401, 420, 438, 500})) : success_reply(d.txns[i], ref::random_addr(c.rng));
        if (c.rng.coin()) { rep.fingerprint = true; }
        bool forged = c.rng.chance(1, 3);
        if (forged) { rep.key.push_back(1); }
        Bytes p = rep.bytes();
        switch (c.rng.below(7)) {
        case 0: hash_error = std::make_error_code(std::errc::io_error); break;
        case 1: hash_error = std::error_code(1 + (int)c.rng.below(130), std::generic_category()); break;
        case 2: hash_error = std::error_code(1 + (int)c.rng.below(130), std::system_category()); break;
        case 3: hash_error = stun::make_error_code(stun::ClientError::no_integrity_attribute_in_response); break;
        case 4: hash_error = stun::make_error_code(stun::ParseError::invalid_magic_cookie); break;
        case 5: hash_error = std::make_error_code(std::errc::resource_unavailable_try_again); break;
        default: hash_error = std::make_error_code(std::io_errc::stream); break;
        }
        hash_fails_at = (int)c.rng.below(2) + (d.txns[i].spec.key.size() > 64 ? (int)c.rng.below(2) : 0);
        auto err = d.respond(p, c.rng.coin());
        bool failed = hash_fails_at == -1;
        hash_fails_at = -1;
        if (!failed && !forged) { // nothing went wrong
            CHECK(err.is_none() && twin.respond(p).is_none(), "refused", "authentic response is refused");
            done[i] = true;
            continue;
        }
        CHECK(err.is_some(), "hash.accepted", "response is accepted although the hash function failed with '" << hash_error.message() << "': " << vf::hex(p));
        EVN("responses that could not be checked", failed);
        h.add(p).add((uint64_t)hash_error.value());
        both(0);
        if (c.rng.chance(1, 3) && !forged) { // now it can
            CHECK(d.respond(p).is_none() && twin.respond(p).is_none(), "refused", "authentic response is refused after the hash function failed once");
            done[i] = true;
            EV("completed by authentic responses");
        }
    }
    d.drain(); twin.drain();
    CHECK(d.trace == twin.trace, "trace", "a response that could not be checked changed the life of the client: " << d.show_trace() << " WITHOUT: " << twin.show_trace());
    NOT_BROKEN(d);
    for (unsigned i = 0; i < n; ++i) { CHECK((d.txns[i].outcome.kind == K_TIMEOUT) == !done[i], "outcome", "outcome " << d.txns[i].outcome.show()); }
    c.distinct(h);
}

// Every bit of an authentic response.
GROUP("P16", "every bit", 60, 3000) {
    Settings s;
    Driver d(s, random_base(c.rng), c.rng.u64());
    TxSpec t;
    random_auth(c.rng, t, 1, 1);
    int i = d.create(t);
    d.poll();
    Reply rep = success_reply(d.txns[i], ref::random_addr(c.rng));
    rep.fingerprint = c.rng.coin();
    if (c.rng.coin()) { rep.attrs.emplace_back(ref::A_SOFTWARE, c.rng.bytes(c.rng.below(10))); }
    Bytes p = rep.bytes();
    auto dec = ref::decode(p);
    for (size_t bit = 0; bit < (dec.integrity_off + 24) * 8; ++bit) {
        Bytes q = p;
        q[bit / 8] ^= (uint8_t)(1u << bit % 8);
        if (c.rng.coin()) { ref::refresh_fingerprint(q); }
        auto err = d.respond(q);
        CHECK(err.is_some(), "bit.accepted", "response with bit " << bit << " changed is accepted: " << vf::hex(q));
        EV("bits changed");
    }
    d.poll();
    CHECK(d.txns[i].live(), "bit.completed", "a changed response completed the transaction");
    CHECK(d.respond(p).is_none(), "refused", "authentic response is refused");
    d.poll();
    CHECK(d.txns[i].outcome.kind == K_OK, "outcome", d.txns[i].outcome.show());
    c.distinct(vf::Hash().add(p));
}

// ---------------------------------------------------------------- P17
namespace {
// A response that decides nothing: forged, to others, no response, of no known kind.
void undecided(vf::Ctx& c, Driver& d, size_t i) {
    const Txn& t = d.txns[i];
    Reply rep = any_success(c.rng, t);
    switch (c.rng.below(t.spec.auth ? 6 : 3)) {
    case 0: rep.tid = c.rng.bytes(12); EV("responses to others"); break;
    case 1: rep.cls = (unsigned)c.rng.below(2); EV("messages that are no responses"); break;
    case 2: { // code of no kind that a client knows
        unsigned code = c.rng.coin() ? (unsigned)c.rng.range(600, 699) : (unsigned)c.rng.range(100, 299);
        auto after = rep.fingerprint;
        rep = error_reply(t, code);
        rep.fingerprint = after;
        EV("responses of unknown kind");
        break;
    }
    default: if (c.rng.coin()) { rep.sign = false; } else { rep.key.push_back(1); } EV("forged responses"); break;
    }
    d.respond(rep.bytes(), c.rng.chance(1, 4));
}
void schedule(vf::Ctx& c, const Settings& s, unsigned strategy, unsigned n) {
    bool noise = c.rng.coin();
    Driver d(s, random_base(c.rng), c.rng.u64());
    std::vector<Schedule> want;
    std::vector<Ev> expected;
    d.now = (us)c.rng.below(1000);
    vf::Hash h;
    h.add(s.rc).add(s.rm).add((uint64_t)s.rto).add((uint64_t)s.max_rto).add(strategy).add(n);
    // Different paths and the same path: nothing is answered, so no history.
    auto create = [&] {
        TxSpec t;
        t.path = random_path(c.rng);
        if (noise) { random_auth(c.rng, t); }
        int i = d.create(t);
        CHECK(i >= 0, "create", d.create_error);
        want.emplace_back(s, d.now, s.rto);
        auto e = d.step();
        CHECK(e.type == Ev::SEND && e.handle == d.txns[i].handle, "first", "new transaction is not sent at once: " << e.show());
    };
    create();
    unsigned polls = 0;
    unsigned most = 3000 + 100 * s.rc * n;
    while (polls++ < most) {
        // Time of the next poll
        us due = std::numeric_limits<us>::max();
        for (auto& w : want) { if (!w.over) { due = std::min(due, w.due); } }
        if (due == std::numeric_limits<us>::max()) { if (want.size() >= n) { break; } create(); continue; }
        us t = d.now;
        unsigned st = strategy == 3 ? (unsigned)c.rng.below(3) : strategy;
        if (st == 0) { t = due; }
        else if (st == 1) { us gap = due - d.now; t = gap > 1 && c.rng.chance(3, 4) ? d.now + (us)c.rng.below((uint64_t)gap) : c.rng.coin() && gap > 0 ? due - 1 : due; }
        else { t = due + (us)c.rng.below((uint64_t)(c.rng.chance(1, 4) ? 20 : 2) * s.rto + 2); }
        if (noise) {
            for (unsigned k = (unsigned)c.rng.below(4); k--;) {
                size_t i = c.rng.below(want.size());
                if (t > d.now && c.rng.coin()) { d.now += (us)c.rng.below((uint64_t)std::min<us>(t - d.now, us(1) << 60)); }
                undecided(c, d, i);
            }
            EV("steps with responses that decide nothing");
        }
        d.now = t;
        if (want.size() < n && c.rng.chance(1, 4)) { create(); }
        auto evs = d.poll();
        NOT_BROKEN(d);
        std::map<unsigned, int> got;
        for (auto& e : evs) {
            CHECK(!got.count(e.handle), "twice", "two actions of a transaction in one poll: " << e.show() << "; " << d.show_trace());
            CHECK(e.type == Ev::SEND || e.outcome.kind == K_TIMEOUT, "outcome", "outcome of an unanswered transaction: " << e.show());
            got[e.handle] = e.type == Ev::SEND ? 1 : 2;
        }
        for (size_t i = 0; i < want.size(); ++i) {
            us was = want[i].due;
            unsigned sent = want[i].sent;
            int x = want[i].poll(d.now);
            int g = got.count(d.txns[i].handle) ? got[d.txns[i].handle] : 0;
            static const char* names[] = {"nothing", "transmission", "timeout"};
            CHECK(g == x, x == 0 ? "early" : g == 0 ? "missing" : "wrong", names[g] << " instead of " << names[x] << " at " << d.now << " for the transaction created at " << d.txns[i].created << " after " << sent << " transmissions (due at " << was
                  << "; rc " << s.rc << ", rm " << s.rm << ", rto " << s.rto << ", max " << s.max_rto << "): " << d.show_trace());
            if (x == 1) { EV("retransmissions"); if (d.now > was) { EV("late polls"); } }
            if (x == 2) { EV("timeouts"); CHECK(d.txns[i].sends.size() == want[i].count(), "count", d.txns[i].sends.size() << " transmissions instead of " << want[i].count()); }
        }
    }
    CHECK(d.live() == 0, "live", "transactions are live after " << most << " polls");
    if (s.max_rto) { EV("with maximal interval"); }
    c.distinct(h);
    c.sample(d.show_trace(12));
}
}
GROUP("P17", "random settings", 6000, 400000) {
    Settings s = random_settings(c.rng);
    schedule(c, s, (unsigned)c.rng.below(4), 1 + (unsigned)c.rng.below(c.rng.coin() ? 1 : 5));
}
// Every request count and multiplier, on time.
GROUP("P17", "all counts", 12 * 20 * 3, 12 * 20 * 9) {
    Settings s;
    s.rc = (unsigned)(c.idx % 12);
    s.rm = 1 + (unsigned)(c.idx / 12 % 20);
    switch (c.idx / 240 % 3) {
    case 0: break;
    case 1: s.max_rto = 8000000; break;
    default: s.rto = 100000; s.max_rto = 700001; break;
    }
    schedule(c, s, (unsigned)(c.idx / 720), 1);
    EV("settings enumerated");
}
// Hundreds of transmissions, at an interval that does not grow.
GROUP("P17", "many transmissions", 60, 1200) {
    Settings s = random_settings(c.rng);
    static const unsigned K[] = {127, 128, 254, 255, 256, 257, 258, 300, 511, 513, 1000, 700};
    s.rc = K[c.idx % 12];
    s.rm = 1 + (unsigned)c.rng.below(20);
    s.rto = (us)c.rng.range(1000, 500000);
    s.max_rto = (us)c.rng.range(s.rto / 2, 8 * s.rto);
    schedule(c, s, (unsigned)c.rng.below(4), 1 + (unsigned)c.rng.below(3));
    EV("hundreds of transmissions");
}
// The defaults of the RFC, as absolute times.
GROUP("P17", "defaults", 20, 200) {
    Client::Settings defaults;
    Client client(defaults);
    uint64_t base = random_base(c.rng);
    Words words(c.rng.u64());
    auto h = client.create(words, at(base, 0), Client::Request{path(random_path(c.rng)), {}, {}});
    CHECK(h.is_ok(), "create", "refused");
    std::vector<us> sends;
    us t = 0, end = -1;
    for (unsigned i = 0; i < 100 && end < 0; ++i) {
        auto e = client.next(at(base, t));
        if (std::holds_alternative<Client::SendData>(e)) { sends.push_back(t); }
        else if (auto* f = std::get_if<Client::TransactionFailed>(&e)) { CHECK(std::holds_alternative<Client::TransactionFailed::Timeout>(f->reason), "default.reason", "no timeout"); end = t; }
        else if (auto* s = std::get_if<Client::Sleep>(&e)) { t += s->sleep.count(); }
        else { break; }
    }
    std::vector<us> want{0, 500000, 1500000, 3500000, 7500000, 15500000, 31500000};
    CHECK(sends == want && end == 39500000, "default", "default schedule has " << sends.size() << " transmissions, timeout at " << end);
    c.distinct(vf::Hash().add(base));
}

// ---------------------------------------------------------------- P18
namespace {
struct PathModel { // of RFC 6298 with Karn's algorithm, in whole microseconds
    bool has = false, smooth = false, backed = false;
    us srtt = 0, var = 0, backoff = 0, updated = 0;
    long double s = 0, v = 0; // without rounding
    void rtt(us t, us r) {
        if (!smooth) { srtt = r; var = r / 2; s = r; v = r / 2.0L; smooth = true; }
        else {
            us d = srtt > r ? srtt - r : r - srtt;
            var = (3 * var + d) / 4;
            srtt = (7 * srtt + r) / 8;
            long double dd = s > r ? s - r : r - s;
            v = (3 * v + dd) / 4;
            s = (7 * s + r) / 8;
        }
        backed = false; has = true; updated = t;
    }
    void back(us t, us b) { backed = true; backoff = b; has = true; updated = t; }
    us rto(us initial) const { return backed ? backoff : smooth ? srtt + std::max<us>(1, 4 * var) : initial; }
};

void rto_history(vf::Ctx& c, bool exact) {
    Settings s;
    s.rc = 2 + (unsigned)c.rng.below(6);
    s.rm = 1 + (unsigned)c.rng.below(16);
    s.rto = c.rng.coin() ? 500000 : (us)c.rng.range(1000, 2000000);
    // Round-trip times of both kinds must fit into the first interval most of the time.
    us unit = exact ? 1 << 15 : 1;
    s.max_rto = c.rng.chance(1, 4) ? (us)c.rng.range(s.rto / 2, 8 * s.rto) : 0;
    s.history = c.rng.chance(1, 3) ? 3600ll * 1000000 : c.rng.chance(1, 8) ? (us)c.rng.below(3) : (us)c.rng.range(1, 60000000);
    s.fingerprint = c.rng.coin();
    Driver d(s, random_base(c.rng), c.rng.u64());
    std::map<PathSpec, PathModel> model;
    unsigned rounds = 10 + (unsigned)c.rng.below(40), hosts = 2 + (unsigned)c.rng.below(4);
    vf::Hash h;
    auto update = [&](const PathSpec& p, auto&& f) {
        f(model[p]);
        // Every other path that was not updated for too long is dropped.
        for (auto it = model.begin(); it != model.end();) {
            if (!(it->first == p) && d.now - it->second.updated > s.history) { EV("history dropped"); it = model.erase(it); } else { ++it; }
        }
    };
    us favourite = (us)c.rng.range(1, 3000000);
    while (rounds--) {
        TxSpec t;
        t.path = random_path(c.rng, hosts);
        random_auth(c.rng, t, 1, 3);
        if (c.rng.chance(1, 4)) { d.now += c.rng.chance(1, 3) ? std::max<us>(0, s.history + (us)c.rng.range(-2, 2)) : (us)c.rng.below((uint64_t)s.history + 1); d.poll(); }
        us expiry = -1; // the answer comes just when another path becomes too old
        if (!exact && !model.empty() && c.rng.chance(1, 4)) {
            auto e = std::next(model.begin(), (long)c.rng.below(model.size()));
            us target = e->second.updated + s.history;
            if (!(e->first == t.path) && target > d.now) { d.now = std::max(d.now, target - (us)c.rng.below((uint64_t)s.rto)); d.poll(); expiry = target + c.rng.one_of<us>({-1, 0, 0, 1}); }
        }
        us want = s.rto;
        auto it = model.find(t.path);
        if (it != model.end()) { want = it->second.rto(s.rto); }
        us tolerance = 0;
        if (it != model.end() && it->second.smooth && !it->second.backed && !exact) { tolerance = 0; }
        int i = d.create(t);
        CHECK(i >= 0, "create", d.create_error);
        us begin = d.now;
        us limited = s.max_rto > 0 ? std::min(want, s.max_rto) : want;
        // The interval is what the client sleeps, and what passes until the second transmission.
        d.poll();
        CHECK(d.last.type == Ev::SLEEP, "sleep", "client is idle with a live transaction");
        auto describe = [&](us got) {
            std::ostringstream o;
            o << "initial timeout is " << got << " instead of " << limited << " on path " << vf::hex(t.path.source) << "-" << vf::hex(t.path.target) << " with ";
            if (it == model.end()) { o << "no history"; } else { o << "srtt " << it->second.srtt << " var " << it->second.var << " backoff " << (it->second.backed ? it->second.backoff : -1) << " updated at " << it->second.updated << ", now " << begin; }
            o << ", history " << s.history << ": " << d.show_trace(20);
            return o.str();
        };
        // Earlier entries of the timeline may wake up the client: only sends count.
        us rtt = c.rng.chance(1, 8) ? 0 : c.rng.chance(1, 3) ? favourite : c.rng.chance(1, 2) ? (us)c.rng.below((uint64_t)limited) : (us)c.rng.below(2000000);
        if (exact) { rtt = rtt / unit * unit; }
        unsigned answer = (unsigned)c.rng.below(10); // 0: never
        us at_time = answer == 0 ? std::numeric_limits<us>::max() : answer <= 6 ? begin + rtt : begin + (us)c.rng.below((uint64_t)limited * 8);
        if (answer <= 6 && answer > 0 && rtt >= limited && c.rng.coin()) { at_time = begin + (us)c.rng.below((uint64_t)limited); if (exact) { at_time = begin + (at_time - begin) / unit * unit; } }
        if (expiry >= begin) { at_time = expiry; EV("answers when another path expires"); }
        Schedule sch(s, begin, want);
        bool answered = false;
        while (d.txns[i].live()) {
            us next = d.now + (d.last.type == Ev::SLEEP ? d.last.sleep : 1);
            CHECK(d.last.type == Ev::SLEEP && d.last.sleep > 0, "sleep", "client is idle with a live transaction: " << d.last.show());
            if (!answered && at_time < next) {
                d.now = at_time;
                answered = true;
                ref::Addr a = ref::random_addr(c.rng);
                Reply rep = c.rng.coin() ? success_reply(d.txns[i], a) : any_success(c.rng, d.txns[i]);
                unsigned kind = (unsigned)c.rng.below(12);
                // Errors are no measurements; a success without an address is one.
                bool measured = true;
                if (kind == 0) { rep = error_reply(d.txns[i], 400); measured = false; }
                if (kind == 1) { rep.attrs.clear(); }
                if (kind == 2) { rep.attrs.emplace_back(0x7ffe, Bytes{1}); measured = false; }
                CHECK(d.respond(rep.bytes()).is_none(), "refused", "response is refused");
                us waited = sch.wait(sch.sent); // interval that is running
                if (measured && sch.sent == 1) { us r = d.now - begin; update(t.path, [&](PathModel& m) { m.rtt(d.now, r); }); EV("measurements"); if (r == 0) { EV("zero round-trip times"); } }
                else if (measured) { update(t.path, [&](PathModel& m) { m.back(d.now, waited); }); EV("back-offs"); }
                d.poll();
                CHECK(!d.txns[i].live(), "no.outcome", "no outcome after the response");
                auto& o = d.txns[i].outcome;
                if (kind > 2) {
                    CHECK(o.kind == K_OK, "outcome", o.show());
                    if (sch.sent == 1) { CHECK(o.rtt == d.now - begin, "round.trip", "round-trip time is " << o.rtt << " instead of " << d.now - begin); EV("round-trip times reported"); }
                    else { CHECK(o.rtt < 0, "round.trip.ambiguous", "round-trip time " << o.rtt << " is reported after " << sch.sent << " transmissions"); EV("ambiguous round trips"); }
                }
                break;
            }
            d.now = next;
            auto evs = d.poll();
            int x = sch.poll(d.now);
            int g = 0;
            for (auto& e : evs) { if (e.handle == d.txns[i].handle) { g = e.type == Ev::SEND ? 1 : 2; } }
            if (g != x) { CHECK(false, "rto", describe(g == 0 ? -1 : d.now - begin) << " (" << (g == 0 ? "nothing" : g == 1 ? "transmission" : "timeout") << " at " << d.now << " after " << sch.sent << " transmissions)"); }
            EV("intervals checked");
        }
        NOT_BROKEN(d);
        (void)tolerance;
        h.add((uint64_t)want).add((uint64_t)d.now);
        if (it != model.end()) { EV("timeouts from history"); }
        d.now += (us)c.rng.below(2000);
    }
    c.distinct(h);
    c.sample(d.show_trace(10));
}
}
GROUP("P18", "paths", 2500, 150000) { rto_history(c, false); }
GROUP("P18", "exact", 1500, 80000) { rto_history(c, true); }

// Hundreds of paths at once: each keeps what was measured on it.
GROUP("P18", "many paths", 120, 3000) {
    Settings s;
    s.rc = 3; s.rm = 4;
    s.rto = 500000;
    s.history = 3600ll * 1000000;
    Driver d(s, random_base(c.rng), c.rng.u64());
    size_t n = 2 + c.idx * 5 % (c.thorough ? 3000 : 600);
    unsigned hosts = 2 + (unsigned)std::sqrt((double)n);
    std::map<PathSpec, PathModel> model;
    vf::Hash h;
    for (unsigned round = 0; round < 2; ++round) {
        for (size_t k = 0; k < n; ++k) {
            TxSpec t;
            t.path = random_path(c.rng, hosts);
            auto it = model.find(t.path);
            us want = it == model.end() ? s.rto : it->second.rto(s.rto);
            int i = d.create(t);
            CHECK(i >= 0, "create", d.create_error);
            us begin = d.now;
            bool again = c.rng.coin();
            us end = again ? begin + want + (us)c.rng.below((uint64_t)want) : begin + (us)c.rng.below((uint64_t)want);
            Schedule sch(s, begin, want);
            d.poll(); // the first transmission
            for (;;) { // earlier transactions may wake the client up; only sends count
                int x = sch.poll(d.now), g = 0;
                for (auto& e : d.poll()) { if (e.handle == d.txns[i].handle) { g = e.type == Ev::SEND ? 1 : 2; } }
                CHECK(x == g, "rto", (g ? "transmission" : "nothing") << " at " << d.now - begin << ", initial timeout should be " << want << " with " << model.size() << " paths known: " << d.show_trace(20));
                EV("intervals checked");
                CHECK(d.last.type == Ev::SLEEP && d.last.sleep > 0, "sleep", "client is idle with a live transaction: " << d.last.show());
                if (d.now == end) { break; }
                d.now = std::min(end, d.now + d.last.sleep);
            }
            if (it != model.end()) { EV("timeouts from history"); }
            CHECK(d.respond(success_reply(d.txns[i], ref::random_addr(c.rng)).bytes()).is_none(), "refused", "response is refused");
            if (again) { model[t.path].back(d.now, want * 2); EV("back-offs"); } else { model[t.path].rtt(d.now, d.now - begin); EV("measurements"); }
            d.poll();
            CHECK(!d.txns[i].live(), "no.outcome", "no outcome after the response");
            h.add((uint64_t)want).add((uint64_t)d.now);
            if (d.now > s.history / 2) { break; } // nothing expires here
        }
    }
    NOT_BROKEN(d);
    c.distinct(h);
}

// Answered after any number of transmissions: only the first one can be measured.
GROUP("P18", "answered late", 40, 1600) {
    Settings s;
    s.rc = 2000;
    s.rto = (us)c.rng.range(2000, 100000);
    s.max_rto = s.rto * (us)c.rng.range(2, 6);
    s.history = 36000ll * 1000000;
    Driver d(s, random_base(c.rng), c.rng.u64());
    PathSpec to = random_path(c.rng);
    PathModel model;
    static const unsigned K[] = {0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 511, 512, 513, 767, 768, 1024, 1025, 1280};
    vf::Hash h;
    for (unsigned round = 0; round < 4; ++round) {
        unsigned more = round == 0 && c.rng.coin() ? 0 : K[(c.idx * 4 + round) % 18];
        TxSpec t;
        t.path = to;
        us rto = model.has ? model.rto(s.rto) : s.rto, begin = d.now, last = rto;
        int i = d.create(t);
        CHECK(i >= 0, "create", d.create_error);
        d.poll();
        Schedule sch(s, begin, rto);
        sch.poll(begin);
        for (unsigned k = 0; k < more; ++k) {
            d.now = sch.due;
            last = d.now;
            CHECK(sch.poll(d.now) == 1, "model", "no transmission");
            size_t was = d.txns[i].sends.size();
            d.poll();
            CHECK(d.txns[i].sends.size() == was + 1, "rto", "no transmission " << was + 1 << " at " << d.now - begin << ", initial timeout should be " << rto);
        }
        us interval = more ? sch.due - last : rto;
        d.now += (us)c.rng.below((uint64_t)std::max<us>(1, interval - 1)) + (more == 0);
        CHECK(d.respond(success_reply(d.txns[i], ref::random_addr(c.rng)).bytes()).is_none(), "refused", "response is refused");
        d.poll();
        auto& o = d.txns[i].outcome;
        CHECK(!d.txns[i].live() && o.kind == K_OK, "no.outcome", "no success after the response");
        if (more) {
            CHECK(o.rtt < 0, "measured", "round trip of " << o.rtt << " is measured after " << more + 1 << " transmissions");
            model.back(d.now, interval);
            EV("back-offs");
        } else {
            CHECK(o.rtt == d.now - begin, "measured", "round trip is " << o.rtt << " and not " << d.now - begin);
            model.rtt(d.now, d.now - begin);
            EV("measurements");
        }
        h.add(more).add((uint64_t)d.now);
        EV("answered after any number of transmissions");
    }
    NOT_BROKEN(d);
    c.distinct(h);
}

// Round trips of any length, from microseconds to days.
GROUP("P18", "any length", 1000, 40000) {
    Settings s;
    s.rc = 1 + (unsigned)c.rng.below(3);
    s.rm = 1 + (unsigned)c.rng.below(4);
    s.rto = 1ll << 44; // 200 days
    if (c.rng.chance(1, 4)) { s.max_rto = (us)c.rng.range(1ll << 30, 1ll << 43); }
    s.history = 1ll << 50;
    Driver d(s, random_base(c.rng), c.rng.u64());
    PathSpec to = random_path(c.rng);
    PathModel model;
    vf::Hash h;
    unsigned most = 20 + (unsigned)c.rng.below(21); // bits of a round trip
    for (unsigned round = 0; round < 8; ++round) {
        TxSpec t;
        t.path = to;
        us want = model.has ? model.rto(s.rto) : s.rto, begin = d.now;
        int i = d.create(t);
        CHECK(i >= 0, "create", d.create_error);
        d.poll();
        Schedule sch(s, begin, want);
        CHECK(d.last.type == Ev::SLEEP && d.now + d.last.sleep <= sch.due, "sleep", "sleep until " << d.now + d.last.sleep << ", something is due at " << sch.due);
        auto wait_until = [&](us until) {
            while (d.now < until) {
                us next = until;
                if (d.last.type == Ev::SLEEP) { next = std::min(next, d.now + d.last.sleep); }
                CHECK(next > d.now, "sleep", "sleep of nothing");
                d.now = next;
                auto evs = d.poll();
                int x = sch.poll(d.now), g = 0;
                for (auto& e : evs) { if (e.handle == d.txns[i].handle) { g = e.type == Ev::SEND ? 1 : 2; } }
                CHECK(g == x, "rto", (g == 0 ? "nothing" : g == 1 ? "transmission" : "timeout") << " " << d.now - begin << "us after the creation, initial timeout is " << want << " (srtt " << model.srtt << ", var " << model.var << ")");
                EV("intervals checked");
                if (sch.over) { return; }
            }
        };
        unsigned what = (unsigned)c.rng.below(8);
        if (what == 0) { // one microsecond before the timeout and at it, then no answer
            wait_until(sch.due - 1);
            wait_until(sch.due);
            while (!sch.over) { wait_until(sch.due); }
            CHECK(!d.txns[i].live() && d.txns[i].outcome.kind == K_TIMEOUT, "outcome", d.txns[i].outcome.show());
            h.add((uint64_t)d.now);
            continue;
        }
        us rtt = (us)(c.rng.u64() >> (64 - (c.rng.coin() ? most : 1 + c.rng.below(40))));
        if (c.rng.chance(1, 4) && model.smooth) { rtt = std::max<us>(0, model.srtt + (us)c.rng.range(-3, 3)); }
        wait_until(begin + rtt);
        if (sch.over) { CHECK(!d.txns[i].live(), "outcome", "no timeout"); continue; }
        CHECK(d.respond(success_reply(d.txns[i], ref::random_addr(c.rng)).bytes()).is_none(), "refused", "response is refused");
        d.poll();
        auto& o = d.txns[i].outcome;
        CHECK(!d.txns[i].live() && o.kind == K_OK, "no.outcome", "no success after the response");
        if (sch.sent == 1) {
            CHECK(o.rtt == rtt, "measured", "round trip is " << o.rtt << " and not " << rtt);
            model.rtt(d.now, rtt);
            EV("measurements");
            if (rtt > 3600ll * 1000000) { EV("round trips of hours"); }
        } else {
            CHECK(o.rtt < 0, "measured", "round trip of " << o.rtt << " is measured after " << sch.sent << " transmissions");
            model.back(d.now, sch.wait(sch.sent));
            EV("back-offs");
        }
        h.add((uint64_t)rtt).add((uint64_t)want);
    }
    NOT_BROKEN(d);
    c.distinct(h);
}

// Server errors between the transmissions: what was sent again is no measurement,
// whatever came in between.
GROUP("P18", "server errors", 1500, 60000) {
    Settings s;
    s.rc = 2 + (unsigned)c.rng.below(6);
    s.rto = (us)c.rng.range(1000, 500000);
    s.server_error = (us)c.rng.range(1, 3 * s.rto);
    s.server_error_max = 1 + (unsigned)c.rng.below(4);
    s.history = 36000ll * 1000000;
    Driver d(s, random_base(c.rng), c.rng.u64());
    PathSpec to = random_path(c.rng);
    PathModel model;
    bool known = true; // whether the model tells the timeout
    vf::Hash h;
    unsigned rounds = 10 + (unsigned)c.rng.below(10);
    while (rounds-- && d.now < 1ll << 45) {
        TxSpec t;
        t.path = to;
        random_auth(c.rng, t, 1, 3);
        int i = d.create(t);
        CHECK(i >= 0, "create", d.create_error);
        d.poll();
        us begin = d.now, want = model.rto(s.rto);
        unsigned granted = 0;
        bool pure = c.rng.chance(1, 3); // a single transmission, no server error
        while (d.txns[i].live()) {
            unsigned what = (unsigned)c.rng.below(10);
            us next = d.last.type == Ev::SLEEP ? d.last.sleep : 1;
            CHECK(next > 0, "sleep", "sleep of " << next);
            size_t sent = d.txns[i].sends.size();
            if (pure || what == 0) {
                us upto = sent == 1 && !granted && known ? std::min(next, want) : next;
                d.now += (us)c.rng.below((uint64_t)upto);
                CHECK(d.respond(any_success(c.rng, d.txns[i]).bytes()).is_none(), "refused", "response is refused");
                d.poll();
                auto& o = d.txns[i].outcome;
                CHECK(!d.txns[i].live() && o.kind == K_OK, "no.outcome", "no success after the response: " << d.show_trace());
                if (sent == 1) {
                    CHECK(o.rtt == d.now - begin, "round.trip", "round-trip time is " << o.rtt << " instead of " << d.now - begin << ": " << d.show_trace());
                    model.rtt(d.now, d.now - begin);
                    known = true;
                    EV("measurements");
                } else {
                    CHECK(o.rtt < 0, "round.trip.ambiguous", "round-trip time " << o.rtt << " is reported after " << sent << " transmissions and " << granted << " server errors: " << d.show_trace());
                    known = false;
                    EV("back-offs");
                    if (granted) { EV("ambiguous after server errors"); }
                }
            } else if (what < 4 && granted < s.server_error_max) {
                d.now += (us)c.rng.below((uint64_t)next);
                CHECK(d.respond(error_reply(d.txns[i], 500 + (unsigned)c.rng.below(100)).bytes()).is_none(), "refused", "response is refused");
                ++granted;
                d.poll();
                CHECK(d.txns[i].live() && d.txns[i].sends.size() == sent, "server.error", "server error is not put off: " << d.show_trace());
            } else {
                d.now += next;
                d.poll();
                if (d.txns[i].sends.size() > sent && sent == 1 && !granted && known) {
                    CHECK(d.now - begin == want, "rto", "second transmission after " << d.now - begin << " instead of " << want << ": " << d.show_trace());
                    EV("intervals checked");
                }
            }
        }
        h.add((uint64_t)d.now).add(granted);
        d.now += (us)c.rng.below(2000);
    }
    NOT_BROKEN(d);
    c.distinct(h);
}

// Overlapping transactions of the same and of different paths.
GROUP("P18", "overlapping", 1500, 80000) {
    Settings s;
    s.rc = 7; s.rm = 4;
    s.rto = (us)c.rng.range(1000, 500000);
    s.history = c.rng.coin() ? 3600ll * 1000000 : (us)c.rng.range(1, 20 * s.rto);
    Driver d(s, random_base(c.rng), c.rng.u64());
    std::map<PathSpec, PathModel> model;
    std::vector<Schedule> sch;
    std::vector<us> wants;
    bool crowd = c.rng.chance(1, 4);
    unsigned steps = crowd ? 120 : 60;
    vf::Hash h;
    unsigned hosts = 2 + (unsigned)c.rng.below(3);
    auto check = [&](const std::vector<Ev>& evs) {
        std::map<unsigned, int> got;
        for (auto& e : evs) { got[e.handle] = e.type == Ev::SEND ? 1 : 2; }
        for (size_t i = 0; i < sch.size(); ++i) {
            if (!sch[i].over) {
                us due = sch[i].due; unsigned sent = sch[i].sent;
                int x = sch[i].poll(d.now), g = got.count(d.txns[i].handle) ? got[d.txns[i].handle] : 0;
                CHECK(x == g, "rto", (g == 0 ? "nothing" : g == 1 ? "transmission" : "outcome") << " at " << d.now << " for the transaction created at " << d.txns[i].created << " with timeout " << wants[i] << " (due at " << due << ", " << sent << " transmissions): " << d.show_trace(20));
                if (x) { EV("intervals checked"); }
            }
        }
    };
    while (steps-- && d.now < 1ll << 45) {
        unsigned what = (unsigned)c.rng.below(10);
        if (what < (crowd ? 6 : 3) && d.live() < (crowd ? 40 : 8)) {
            TxSpec t;
            t.path = random_path(c.rng, hosts);
            random_auth(c.rng, t, 1, 3);
            if (d.live() >= 16) { EV("created in crowds"); }
            auto it = model.find(t.path);
            us want = it == model.end() ? s.rto : it->second.rto(s.rto);
            int i = d.create(t);
            CHECK(i >= 0, "create", d.create_error);
            sch.emplace_back(s, d.now, want);
            wants.push_back(want);
            h.add((uint64_t)want);
            auto e = d.step(); // the first transmission
            CHECK(e.type == Ev::SEND, "first", e.show());
            if (it != model.end()) { EV("timeouts from history"); }
        } else if (what < (crowd ? 8 : 6)) {
            std::vector<size_t> live;
            for (size_t i = 0; i < sch.size(); ++i) { if (!sch[i].over) { live.push_back(i); } }
            if (live.empty()) { continue; }
            size_t i = c.rng.pick(live);
            CHECK(d.respond(any_success(c.rng, d.txns[i]).bytes()).is_none(), "refused", "response is refused");
            auto& m = model[d.txns[i].spec.path];
            if (sch[i].sent == 1) { m.rtt(d.now, d.now - d.txns[i].created); EV("measurements"); } else { m.back(d.now, sch[i].wait(sch[i].sent)); EV("back-offs"); }
            for (auto it = model.begin(); it != model.end();) { if (!(it->first == d.txns[i].spec.path) && d.now - it->second.updated > s.history) { EV("history dropped"); it = model.erase(it); } else { ++it; } }
            unsigned sent = sch[i].sent;
            sch[i].over = true;
            check(d.poll());
            auto& o = d.txns[i].outcome;
            CHECK(o.kind == K_OK && (sent == 1 ? o.rtt == d.now - d.txns[i].created : o.rtt < 0), "round.trip", o.show() << " after " << sent << " transmissions, created at " << d.txns[i].created << ", now " << d.now);
        } else {
            us due = d.now + s.rto;
            for (auto& x : sch) { if (!x.over) { due = std::min(due, x.due); } }
            d.now = c.rng.coin() ? due : d.now + (us)c.rng.below((uint64_t)(due - d.now) + 1);
            check(d.poll());
        }
    }
    NOT_BROKEN(d);
    c.distinct(h);
}

// ---------------------------------------------------------------- P19
GROUP("P19", "responses", 12000, 800000) {
    Settings s = random_settings(c.rng);
    s.server_error = c.rng.chance(1, 3) ? (us)c.rng.range(1, 1000000) : -1;
    s.server_error_max = 40;
    s.rc = 7;
    s.rto = 500000; s.max_rto = 0;
    Driver d(s, random_base(c.rng), c.rng.u64());
    unsigned n = 1 + (unsigned)c.rng.below(c.rng.chance(1, 20) ? 40 : 3);
    for (unsigned i = 0; i < n; ++i) { TxSpec t; t.path = random_path(c.rng); random_auth(c.rng, t, 1, 3); CHECK(d.create(t) >= 0, "create", d.create_error); d.now += 10; }
    d.poll();
    if (c.rng.coin()) { random_past(c.rng, d); }
    CHECK(d.live() == n, "past", "a transaction has ended: " << d.show_trace());
    Life life;
    life.sync(d);
    unsigned k = 1 + (unsigned)c.rng.below(6);
    while (k--) {
        size_t i = c.rng.below(n);
        Reply rep = random_reply(c.rng, d.txns[i]);
        Bytes p = rep.bytes();
        Verdict v = classify(p, d.txns, life.live, s);
        if (v.unspecified) { continue; }
        size_t before = d.trace.size();
        bool parsed = c.rng.chance(1, 3);
        auto err = d.respond(p, parsed);
        auto evs = d.poll();
        NOT_BROKEN(d);
        auto hx = [&] { return vf::hex(p) + " for key " + (d.txns[i].spec.auth ? vf::hex(d.txns[i].spec.key) : "none"); };
        if (v.type == Verdict::ERROR) { CHECK(err.is_some(), "accepted", "response is accepted: " << hx()); CHECK(evs.empty(), "effect", "refused response has an effect: " << evs[0].show() << ": " << hx()); EV("refused"); continue; }
        CHECK(err.is_none(), "refused", "response is refused (" << err.unwrap().message() << "): " << hx());
        if (v.type == Verdict::RETRY) {
            CHECK(evs.empty(), "effect", "server error has an effect: " << evs[0].show() << ": " << hx());
            EV("put off");
            continue;
        }
        if (v.type == Verdict::NOTHING) {
            CHECK(d.trace.size() == before, "effect", "response must have no effect but: " << evs[0].show() << ": " << hx());
            EV("no effect");
            continue;
        }
        life.live[v.txn] = false;
        CHECK(evs.size() == 1 && evs[0].type == Ev::OUTCOME && evs[0].handle == d.txns[v.txn].handle, "outcome.missing", evs.size() << " effects of a response to #" << d.txns[v.txn].handle << ": " << hx());
        auto& o = evs[0].outcome;
        CHECK(o.same(v.outcome), std::string("outcome.") + kind_name(v.outcome.kind), "outcome '" << o.show() << "' instead of '" << v.outcome.show() << "': " << hx());
        if (o.kind == K_OK) {
            stun::ParseStat st;
            auto m = stun::Message::parse(view(p), st);
            CHECK(m.is_ok() && digest(m.unwrap()) == o.response, "outcome.response", "the response in the outcome is not the response: " << hx());
        }
        vf::ev(std::string("outcome: ") + kind_name(o.kind));
        c.distinct(vf::Hash().add(p));
        c.sample(o.show() + " for " + vf::hex(p));
    }
}
// Every error code.
GROUP("P19", "all codes", 2400, 16000) {
    unsigned code = (unsigned)(c.idx % 800);
    Settings s;
    s.server_error = c.rng.chance(1, 3) ? (us)c.rng.range(1, 1000000) : -1;
    s.server_error_max = 40;
    Driver d(s, random_base(c.rng), c.rng.u64());
    TxSpec t;
    random_auth(c.rng, t, 1, 4);
    d.create(t);
    d.poll();
    if (c.rng.coin()) { random_past(c.rng, d); }
    CHECK(d.live() == 1, "past", "the transaction has ended: " << d.show_trace());
    Life life;
    life.sync(d);
    Reply rep = error_reply(d.txns[0], code);
    rep.attrs[0].second = error_value(code, c.rng.bytes(c.rng.below(20)));
    bool list = c.rng.coin(), alt = c.rng.coin();
    if (list) { rep.attrs.emplace_back(ref::A_UNKNOWN, c.rng.bytes(2 * c.rng.below(4))); }
    if (alt) { rep.attrs.emplace_back(ref::A_ALTERNATE, ref::addr_value(ref::random_addr(c.rng))); }
    Bytes p = rep.bytes();
    Verdict v = classify(p, d.txns, life.live, s);
    auto err = d.respond(p);
    CHECK(err.is_none(), "refused", "error response " << code << " is refused");
    auto evs = d.poll();
    if (v.type == Verdict::NOTHING || v.type == Verdict::RETRY) { CHECK(evs.empty(), "effect", "code " << code << " has an effect: " << evs[0].show()); EV("no effect"); }
    else {
        CHECK(evs.size() == 1 && evs[0].outcome.same(v.outcome), std::string("outcome.") + kind_name(v.outcome.kind), "code " << code << ": '" << (evs.empty() ? "nothing" : evs[0].show()) << "' instead of '" << v.outcome.show() << "' for " << vf::hex(p));
        vf::ev(std::string("outcome: ") + kind_name(v.outcome.kind));
    }
    EV("codes");
    c.distinct(vf::Hash().add(p));
}

// Lists in a response of any length come out whole, and long texts too.
// Every attribute type that the client does not know, in each kind of response.
GROUP("P19", "unknown types", 128, 1280) {
    Settings s;
    s.server_error = c.rng.chance(1, 2) ? (us)c.rng.range(1, 1000000) : -1;
    s.server_error_max = 40;
    for (unsigned i = 0; i < 512; ++i) {
        uint16_t type = (uint16_t)((c.idx % 128) * 512 + i);
        if (ref::is_known(type)) { continue; }
        Driver d(s, random_base(c.rng), c.rng.u64());
        TxSpec t;
        random_auth(c.rng, t, 1, 4);
        d.create(t);
        d.poll();
        if (c.rng.chance(1, 3)) { random_past(c.rng, d); }
        Life life;
        life.sync(d);
        Reply rep = i % 2 ? success_reply(d.txns[0], ref::random_addr(c.rng)) : error_reply(d.txns[0], s.server_error >= 0 ? 400 + (unsigned)c.rng.below(100) : 400 + (unsigned)c.rng.below(200));
        unsigned n = c.idx < 128 ? 1 : 1 + (unsigned)c.rng.below(3);
        Bytes v = c.rng.bytes(c.rng.below(6));
        size_t before = c.rng.below(rep.attrs.size() + 1);
        while (n--) { rep.attrs.insert(rep.attrs.begin() + (long)before, {type, v}); }
        if (c.idx >= 128 && c.rng.coin()) { rep.attrs.emplace_back(ref::random_unknown_type(c.rng), c.rng.bytes(c.rng.below(5))); }
        Bytes p = rep.bytes();
        Verdict x = classify(p, d.txns, life.live, s);
        if (x.unspecified) { continue; }
        CHECK(x.type == Verdict::FINAL, "model", "response is not final: " << vf::hex(p));
        CHECK(d.respond(p).is_none(), "refused", "response is refused: " << vf::hex(p));
        auto evs = d.poll();
        CHECK(evs.size() == 1 && evs[0].outcome.same(x.outcome), std::string("outcome.") + kind_name(x.outcome.kind), "'" << (evs.empty() ? "nothing" : evs[0].show()) << "' instead of '" << x.outcome.show() << "' for " << vf::hex(p));
        vf::ev(std::string("outcome: ") + kind_name(x.outcome.kind));
        EV("unknown types enumerated");
        c.distinct(vf::Hash().add(p));
    }
}

GROUP("P19", "long lists", 96, 2400) {
    static const size_t K[] = {127, 128, 254, 255, 256, 257, 382, 511, 1024, 4096, 8191, 15000};
    Settings s = random_settings(c.rng);
    s.server_error = -1;
    Driver d(s, random_base(c.rng), c.rng.u64());
    TxSpec t;
    random_auth(c.rng, t, 1, 4);
    d.create(t);
    d.poll();
    Life life;
    life.sync(d);
    size_t n = K[c.idx % 12] + (c.idx < 48 ? 0 : c.rng.below(300));
    unsigned code = c.rng.coin() ? 420 : 400 + (unsigned)c.rng.below(200);
    Reply rep = c.idx / 12 % 4 < 2 ? success_reply(d.txns[0], ref::random_addr(c.rng)) : error_reply(d.txns[0], code);
    switch (c.idx / 12 % 4) {
    case 0: case 2: // attributes that the client does not know
        for (size_t i = 0; i < n; ++i) { rep.attrs.emplace_back(ref::random_unknown_type(c.rng, i == n - 1 || c.rng.chance(2, 3)), Bytes()); }
        break;
    case 1: // not required to be known
        for (size_t i = 0; i < n; ++i) { rep.attrs.emplace_back(ref::random_unknown_type(c.rng, false), Bytes()); }
        break;
    default: // a list of the server, and a long phrase
        rep.attrs[0].second = error_value(code, c.rng.bytes(n));
        rep.attrs.emplace_back(ref::A_UNKNOWN, c.rng.bytes(2 * n));
    }
    Bytes p = rep.bytes();
    Verdict v = classify(p, d.txns, life.live, s);
    auto err = d.respond(p);
    CHECK(err.is_none() == (v.type != Verdict::NOTHING), "refused", "response of " << p.size() << " bytes is " << (err.is_none() ? "accepted" : "refused"));
    auto evs = d.poll();
    if (v.type != Verdict::NOTHING) {
        CHECK(evs.size() == 1 && evs[0].outcome.same(v.outcome), std::string("outcome.") + kind_name(v.outcome.kind), "'" << (evs.empty() ? "nothing" : evs[0].show()) << "' instead of '" << v.outcome.show() << "' for " << vf::hex(p));
        vf::ev(std::string("outcome: ") + kind_name(v.outcome.kind));
    }
    EV("responses with long lists");
    c.distinct(vf::Hash().add(p));
}

// ---------------------------------------------------------------- P20
GROUP("P20", "histories", 4000, 250000) {
    Settings s = random_settings(c.rng);
    s.rc = 1 + (unsigned)c.rng.below(7);
    s.rto = (us)c.rng.range(1000, 500000);
    s.max_rto = c.rng.chance(1, 4) ? 4 * s.rto : 0;
    bool configured = c.rng.chance(7, 8);
    s.server_error = configured ? (us)c.rng.range(1, 4 * s.rto) : -1;
    s.server_error_max = (unsigned)c.rng.below(6);
    Driver d(s, random_base(c.rng), c.rng.u64());
    unsigned n = 1 + (unsigned)c.rng.below(3);
    struct St { us hold = -1; unsigned granted = 0; bool dead = false; us reported = -1; };
    std::vector<St> st(n);
    for (unsigned i = 0; i < n; ++i) { TxSpec t; t.path = random_path(c.rng); random_auth(c.rng, t, 1, 3); CHECK(d.create(t) >= 0, "create", d.create_error); d.poll(); d.now += (us)c.rng.below(50); }
    vf::Hash h;
    unsigned steps = 400;
    auto check = [&](const std::vector<Ev>& evs) {
        for (auto& e : evs) {
            size_t i = d.by_handle[e.handle];
            auto& x = st[i];
            CHECK(x.hold < 0 || d.now >= x.hold, "early", e.show() << " although it was put off until " << x.hold << " by a server error; " << d.show_trace());
            if (e.type == Ev::SEND) {
                CHECK(d.txns[i].sends.size() <= s.rc + x.granted, "count", d.txns[i].sends.size() << " transmissions, configured are " << s.rc << " and " << x.granted << " retries were granted");
                if (x.hold >= 0) { EV("retries sent"); }
            } else { CHECK(e.outcome.kind == K_TIMEOUT, "outcome", e.show() << "; " << d.show_trace()); }
            if (x.hold >= 0) { x.hold = -1; }
        }
        for (size_t i = 0; i < n; ++i) {
            auto& x = st[i];
            CHECK(x.hold < 0 || d.now < x.hold || !d.txns[i].live(), "late", "nothing was sent at " << d.now << " although due at " << x.hold << "; " << d.show_trace());
        }
        NOT_BROKEN(d);
    };
    while (d.live() > 0 && steps--) {
        unsigned what = (unsigned)c.rng.below(10);
        if (what < 3) {
            size_t i = c.rng.below(n);
            if (!d.txns[i].live()) { continue; }
            unsigned code = 500 + (unsigned)c.rng.below(100);
            Reply rep = error_reply(d.txns[i], code);
            Bytes phrase = c.rng.bytes(c.rng.below(9));
            rep.attrs[0].second = error_value(code, phrase);
            auto err = d.respond(rep.bytes());
            CHECK(err.is_none(), "refused", "server error is refused: " << err.unwrap().message());
            auto& x = st[i];
            h.add((uint64_t)d.now).add(i);
            if (configured && x.granted < s.server_error_max) {
                ++x.granted;
                x.hold = d.now + s.server_error;
                EV("retries granted");
                if (c.rng.coin()) { check(d.poll()); }
            } else {
                x.hold = -1;
                bool found = false;
                std::vector<Ev> others;
                for (auto& e : d.poll()) {
                    if (e.handle == d.txns[i].handle) {
                        CHECK(!found && e.type == Ev::OUTCOME && e.outcome.kind == K_CODE && e.outcome.code == code && e.outcome.phrase == phrase, "not.failed", "server error " << code << " after " << x.granted << " retries leads to " << e.show() << "; " << d.show_trace());
                        found = true;
                        EV("failed by server error");
                    } else { others.push_back(e); }
                }
                check(others);
                CHECK(found, "not.failed", "server error " << code << " after " << x.granted << " granted retries does not fail the transaction (configured: " << (configured ? (int)s.server_error_max : -1) << "); " << d.show_trace());
            }
        } else {
            us next = d.last.type == Ev::SLEEP ? d.last.sleep : 1;
            for (auto& x : st) { if (x.hold > d.now) { next = std::min(next, x.hold - d.now); } }
            switch (c.rng.below(5)) {
            case 0: d.now += (us)c.rng.below((uint64_t)next + 1); break;
            case 1: d.now += next + (us)c.rng.below((uint64_t)s.rto); break; // late
            case 2: if (next > 1) { d.now += next - 1; } break;
            default: d.now += next; break;
            }
            if (c.rng.chance(1, 8)) { continue; } // not polled, a response may come first
            check(d.poll());
        }
    }
    for (unsigned k = 0; k < 3000 && d.live() > 0; ++k) {
        us next = d.last.type == Ev::SLEEP ? d.last.sleep : 1;
        CHECK(next > 0, "sleep", "sleep of " << next);
        d.now += next;
        check(d.poll());
    }
    CHECK(d.live() == 0, "never.ends", "transaction with server errors never ends: " << d.show_trace());
    for (size_t i = 0; i < n; ++i) { CHECK(d.txns[i].sends.size() <= s.rc + st[i].granted, "count", "too many transmissions"); }
    c.distinct(h);
    c.sample(d.show_trace(10));
}
// Responses between single calls of next(), while transmissions of several transactions are handed out.
namespace {
void between_calls(vf::Ctx& c, bool final_only) {
    Settings s = random_settings(c.rng);
    s.rto = (us)c.rng.range(1000, 500000);
    s.max_rto = 0;
    s.rc = 2 + (unsigned)c.rng.below(6);
    s.server_error = (us)c.rng.range(1, 4 * s.rto);
    s.server_error_max = (unsigned)c.rng.below(5);
    Driver d(s, random_base(c.rng), c.rng.u64());
    unsigned n = 2 + (unsigned)c.rng.below(5);
    TxSpec t;
    t.path = random_path(c.rng);
    random_auth(c.rng, t, 1, 3);
    for (unsigned i = 0; i < n; ++i) { CHECK(d.create(t) >= 0, "create", d.create_error); } // all are due at the same times
    struct St { bool moved = false; us hold = -1; unsigned granted = 0; bool queued = false; bool over = false; Outcome want; };
    std::vector<St> st(n);
    vf::Hash h;
    unsigned rounds = 0;
    while (d.live() > 0) {
        CHECK(++rounds < 3000, "never.ends", "transactions never end: " << d.show_trace());
        for (auto& x : st) { x.moved = false; x.queued = false; }
        bool first = true;
        for (unsigned calls = 0;; ++calls) { // a round at one time
            CHECK(calls < 1000, "round", "the client never stops at one point of time");
            if (!first && c.rng.chance(1, 3)) {
                size_t i = c.rng.below(n);
                auto& x = st[i];
                if (d.txns[i].live() && !x.over) {
                    bool server_error = !final_only && c.rng.chance(3, 4);
                    Reply rep = server_error ? error_reply(d.txns[i], 500 + (unsigned)c.rng.below(100)) : c.rng.coin() ? success_reply(d.txns[i], ref::random_addr(c.rng)) : error_reply(d.txns[i], 400);
                    Bytes p = rep.bytes();
                    auto dec = ref::decode(p);
                    Verdict v = classify(p, d.txns, std::vector<bool>(n, true), s);
                    CHECK(!v.unspecified, "harness", "unspecified response");
                    auto err = d.respond(p);
                    if (err.is_some()) { // its time-out waits to be handed out
                        CHECK(err.unwrap() == stun::make_error_code(stun::ClientError::transaction_not_found), "refused", "response is refused: " << err.unwrap().message());
                        CHECK(!x.moved && d.txns[i].sends.size() >= s.rc, "refused", "response to a live transaction is refused as unknown; " << d.show_trace());
                        x.over = true;
                        x.want = Outcome{};
                        x.want.kind = K_TIMEOUT;
                        EV("responses while the time-out waits");
                    } else if (server_error && x.granted < s.server_error_max) {
                        ++x.granted;
                        x.hold = d.now + s.server_error;
                        x.queued = !x.moved; // what was due may be on its way
                        EV("responses between calls");
                        EV("server errors between calls");
                        if (x.queued) { EV("server errors while other transmissions wait"); }
                    } else {
                        x.over = true;
                        x.queued = !x.moved;
                        x.want = v.outcome;
                        x.hold = -1;
                        EV("responses between calls");
                    }
                    h.add(i).add((uint64_t)d.now).add(server_error);
                }
            }
            Ev e = d.step();
            first = false;
            NOT_BROKEN(d);
            if (e.type == Ev::SLEEP || e.type == Ev::IDLE) { break; }
            size_t i = d.by_handle[e.handle];
            auto& x = st[i];
            if (e.type == Ev::SEND) {
                CHECK(!x.moved, "twice", "two transmissions at " << d.now << "; " << d.show_trace());
                if (x.hold >= 0 && d.now < x.hold) {
                    CHECK(x.queued, "early", e.show() << " although it was put off until " << x.hold << " by a server error; " << d.show_trace());
                    x.queued = false;
                } else if (x.over) {
                    CHECK(x.queued, "after", e.show() << " after the response that ends it; " << d.show_trace());
                    x.queued = false;
                } else { x.hold = -1; }
                CHECK(d.txns[i].sends.size() <= s.rc + x.granted, "count", d.txns[i].sends.size() << " transmissions, configured are " << s.rc << " and " << x.granted << " retries were granted");
                x.moved = true;
            } else {
                CHECK(x.over ? e.outcome.same(x.want) : e.outcome.kind == K_TIMEOUT, "outcome", e.show() << " instead of " << (x.over ? x.want.show() : std::string("time-out")) << "; " << d.show_trace());
                CHECK(x.over || x.hold < 0 || d.now >= x.hold, "early", e.show() << " although it was put off until " << x.hold << "; " << d.show_trace());
                x.moved = true;
            }
        }
        for (size_t i = 0; i < n; ++i) {
            auto& x = st[i];
            CHECK(!x.over || !d.txns[i].live(), "lost", "response has not ended transaction #" << d.txns[i].handle << "; " << d.show_trace());
            CHECK(x.hold < 0 || d.now < x.hold || !d.txns[i].live(), "late", "nothing was sent at " << d.now << " although due at " << x.hold << "; " << d.show_trace());
        }
        if (d.live() == 0) { break; }
        CHECK(d.last.type == Ev::SLEEP && d.last.sleep > 0, "sleep", "no sleep although transactions are live");
        us next = d.last.sleep;
        for (size_t i = 0; i < n; ++i) { if (st[i].hold > d.now && d.txns[i].live()) { CHECK(d.last.sleep <= st[i].hold - d.now, "oversleep", "sleep of " << d.last.sleep << ", a retry is due at " << st[i].hold); } }
        d.now += c.rng.chance(1, 8) ? next + (us)c.rng.below((uint64_t)s.rto) : next;
    }
    for (auto& x : d.txns) { CHECK(x.outcomes == 1, "outcomes", x.outcomes << " outcomes of #" << x.handle); }
    EVN("outcomes between calls", n);
    c.distinct(h);
    if (c.wants_sample()) { c.sample(d.show_trace(12)); }
}
}
GROUP("P15", "between calls", 1500, 100000) { between_calls(c, c.rng.coin()); }
GROUP("P20", "between calls", 2000, 120000) { between_calls(c, false); }
// Only server errors, each answered at once: number of transmissions and times are exact.
GROUP("P20", "always failing", 1500, 60000) {
    Settings s;
    s.rc = 1 + (unsigned)c.rng.below(7);
    s.rto = (us)c.rng.range(1000, 500000);
    s.server_error = (us)c.rng.range(1, 10 * s.rto);
    s.server_error_max = (unsigned)c.rng.below(8);
    Driver d(s, random_base(c.rng), c.rng.u64());
    TxSpec t;
    random_auth(c.rng, t, 1, 3);
    d.create(t);
    us latency = (us)c.rng.below((uint64_t)s.rto);
    us expected = 0;
    for (unsigned k = 0;; ++k) {
        d.now = expected;
        auto evs = d.poll();
        CHECK(evs.size() == 1 && evs[0].type == Ev::SEND, "late", "no transmission at " << expected << " after " << k << " server errors: " << d.show_trace());
        d.now += latency;
        CHECK(d.respond(error_reply(d.txns[0], 500 + k).bytes()).is_none(), "refused", "refused");
        evs = d.poll();
        if (k == s.server_error_max) { CHECK(evs.size() == 1 && evs[0].outcome.kind == K_CODE && evs[0].outcome.code == 500 + k, "not.failed", "not failed after " << k << " retries: " << d.show_trace()); break; }
        CHECK(evs.empty(), "early", evs[0].show() << " after " << k << " server errors, allowed " << s.server_error_max);
        expected = d.now + s.server_error;
        // In between nothing happens.
        us until = expected;
        for (unsigned q = 0; q < 4; ++q) { d.now += (us)c.rng.below((uint64_t)(until - d.now)); CHECK(d.poll().empty(), "early", "something before " << until << ": " << d.show_trace()); }
        EV("retries granted");
    }
    CHECK(d.txns[0].sends.size() == s.server_error_max + 1, "count", d.txns[0].sends.size() << " transmissions");
    EV("failed by server error");
    c.distinct(vf::Hash().add((uint64_t)s.server_error).add(s.server_error_max).add((uint64_t)latency).add(s.rc));
}

// As often as configured, hundreds of times.
GROUP("P20", "very often", 30, 600) {
    static const unsigned K[] = {127, 128, 254, 255, 256, 257, 300, 511, 513, 700};
    Settings s;
    s.rc = 1 + (unsigned)c.rng.below(7);
    s.rto = (us)c.rng.range(1000, 500000);
    s.server_error = (us)c.rng.range(1, 10 * s.rto);
    s.server_error_max = K[c.idx % 10];
    Driver d(s, random_base(c.rng), c.rng.u64());
    TxSpec t;
    random_auth(c.rng, t, 1, 3);
    d.create(t);
    for (unsigned k = 0;; ++k) {
        auto evs = d.poll();
        CHECK(evs.size() == 1 && evs[0].type == Ev::SEND, "late", "no transmission after " << k << " server errors, allowed " << s.server_error_max);
        d.now += (us)c.rng.below((uint64_t)s.rto / 2);
        CHECK(d.poll().empty(), "early", "something happens before the response, after " << k << " server errors");
        if (k > 40 && c.rng.chance(1, 700)) { // success after all; the path remembers the time-out
            CHECK(d.respond(success_reply(d.txns[0], ref::random_addr(c.rng)).bytes()).is_none(), "refused", "response is refused");
            evs = d.poll();
            CHECK(evs.size() == 1 && evs[0].outcome.kind == K_OK && evs[0].outcome.rtt < 0, "no.success", "success after " << k << " server errors");
            TxSpec again;
            again.path = t.path;
            int i = d.create(again);
            CHECK(i >= 0, "create", d.create_error);
            for (unsigned q = 0; q < 5; ++q) {
                evs = d.poll();
                CHECK(evs.size() == (q == 0), "next", evs.size() << " actions for the next transaction of the path");
                CHECK(d.last.type == Ev::SLEEP && d.last.sleep > s.rto / 2, "next.sleep", "next transaction of the path sleeps " << d.last.sleep);
                d.now += s.rto / 10;
            }
            EV("success after hundreds of server errors");
            c.distinct(vf::Hash().add((uint64_t)s.server_error).add(k).add(s.rc));
            return;
        }
        unsigned code = 500 + k % 100;
        CHECK(d.respond(error_reply(d.txns[0], code).bytes()).is_none(), "refused", "refused");
        evs = d.poll();
        if (k == s.server_error_max) { CHECK(evs.size() == 1 && evs[0].outcome.kind == K_CODE && evs[0].outcome.code == code, "not.failed", "not failed after " << k << " retries"); break; }
        CHECK(evs.empty(), "early", evs[0].show() << " after " << k << " server errors, allowed " << s.server_error_max);
        d.now += s.server_error;
        EV("retries granted");
    }
    CHECK(d.txns[0].sends.size() == s.server_error_max + 1, "count", d.txns[0].sends.size() << " transmissions");
    EV("failed by server error");
    EV("hundreds of server errors");
    c.distinct(vf::Hash().add((uint64_t)s.server_error).add(s.server_error_max).add(s.rc));
}

// ---------------------------------------------------------------- P21
GROUP("P21", "views", 3000, 200000) {
    Settings s = random_settings(c.rng);
    Driver d(s, random_base(c.rng), c.rng.u64());
    struct View { const uint8_t* p; size_t n; Bytes copy; size_t txn; };
    std::vector<View> views;
    Life life;
    unsigned steps = 20 + (unsigned)c.rng.below(80);
    vf::Hash h;
    std::vector<std::map<uint16_t, Bytes>> want_known;
    std::vector<std::vector<std::pair<uint16_t, Bytes>>> want_unknown;
    auto verify = [&] {
        for (auto& v : views) {
            if (d.txns[v.txn].live()) { CHECK(std::memcmp(v.p, v.copy.data(), v.n) == 0, "changed", "data handed out for #" << d.txns[v.txn].handle << " changed"); EV("views verified"); }
        }
    };
    auto check_content = [&](size_t i) {
        const Txn& t = d.txns[i];
        const Bytes& p = t.data;
        auto hx = [&] { return p.size() > 500 ? std::to_string(p.size()) + " bytes" : vf::hex(p); };
        ref::Decoded r = ref::decode(p);
        CHECK(r.ok && r.type == ref::msg_type(0, 1) && !r.rfc3489, "request", "not a well-formed binding request (" << r.reason << "): " << hx());
        CHECK(r.tid == t.tid, "request.id", "id of " << hx() << " is not " << vf::hex(t.tid));
        auto known = r.known;
        bool mac = known.erase(ref::A_INTEGRITY) != 0, fp = known.erase(ref::A_FINGERPRINT) != 0;
        CHECK(fp == s.fingerprint, "request.fingerprint", (fp ? "with" : "without") << " fingerprint: " << hx());
        CHECK(mac == t.spec.auth, "request.signed", (mac ? "" : "not ") << "signed: " << hx());
        if (mac) { CHECK(r.signed_by(p, t.spec.key), "request.integrity", "integrity of " << hx() << " with key " << vf::hex(t.spec.key)); CHECK(known.count(ref::A_USERNAME) && known[ref::A_USERNAME] == t.spec.name, "request.username", "username of " << hx()); EV("signed requests"); }
        auto want = want_known[i];
        if (t.spec.auth) { want[ref::A_USERNAME] = t.spec.name; }
        CHECK(known == want, "request.attributes", "attributes of " << hx());
        CHECK(r.unknown == want_unknown[i], "request.unknown", "unknown attributes of " << hx());
        EV("requests checked");
    };
    while (steps--) {
        unsigned what = (unsigned)c.rng.below(10);
        if (what < 4 && d.txns.size() < 60) {
            TxSpec t;
            t.path = random_path(c.rng);
            random_auth(c.rng, t);
            std::map<uint16_t, Bytes> known;
            std::vector<std::pair<uint16_t, Bytes>> unknown;
            if (c.rng.coin()) { uint32_t v = c.rng.u32(); t.attrs.push_back(stun::PriorityAttribute{v}); Bytes b; ref::put32(b, v); known[ref::A_PRIORITY] = b; }
            if (c.rng.coin()) { uint64_t v = c.rng.u64(); Bytes b; ref::put64(b, v); if (c.rng.coin()) { t.attrs.push_back(stun::IceControlledAttribute{v}); known[ref::A_CONTROLLED] = b; } else { t.attrs.push_back(stun::IceControllingAttribute{v}); known[ref::A_CONTROLLING] = b; } }
            if (c.rng.coin()) { t.attrs.push_back(stun::UseCandidateAttribute{}); known[ref::A_USE] = {}; }
            if (c.rng.coin()) { Bytes b = c.rng.bytes(c.rng.below(c.rng.chance(1, 6) ? 700 : 20)); t.attrs.push_back(stun::SoftwareAttribute{std::string(b.begin(), b.end())}); known[ref::A_SOFTWARE] = b; }
            if (!t.auth && c.rng.chance(1, 4)) { Bytes b = c.rng.bytes(c.rng.below(20)); t.attrs.push_back(stun::UsernameAttribute{precis::OpaqueString{std::string(b.begin(), b.end())}}); known[ref::A_USERNAME] = b; }
            while (c.rng.chance(1, 3)) { uint16_t ty = ref::random_unknown_type(c.rng); Bytes b = c.rng.bytes(c.rng.below(20)); t.unknown.emplace_back(stun::AttributeType::from_uint16(ty), view(b)); unknown.emplace_back(ty, b); }
            CHECK(d.create(t) >= 0, "create", d.create_error);
            want_known.push_back(known);
            want_unknown.push_back(unknown);
            life.sync(d);
        } else if (what < 6 && !d.txns.empty()) {
            size_t i = c.rng.below(d.txns.size());
            Reply rep = random_reply(c.rng, d.txns[i]);
            if (c.rng.coin()) { // forged
                if (rep.sign && c.rng.coin()) { rep.key.push_back(1); EV("forged responses"); }
                else if (rep.sign) { rep.sign = false; rep.after.clear(); EV("forged responses"); }
                else { rep.tid = c.rng.bytes(12); EV("responses to others"); }
            }
            d.respond(rep.bytes(), c.rng.chance(1, 4));
        } else {
            d.now += step_time(c.rng, d);
            unsigned n = 1 + (unsigned)c.rng.below(12);
            bool all = c.rng.coin();
            while (n-- || all) {
                Ev e = d.step();
                if (e.type == Ev::SLEEP || e.type == Ev::IDLE) { break; }
                if (e.type == Ev::SEND) {
                    size_t i = d.by_handle[e.handle];
                    Bytes copy(e.data, e.data + e.size);
                    CHECK(copy == d.txns[i].data, "identical", "transmission " << d.txns[i].sends.size() << " of #" << e.handle << " differs from the first one");
                    if (d.txns[i].sends.size() == 1) { check_content(i); } else { EV("identical retransmissions"); }
                    views.push_back(View{e.data, e.size, copy, i});
                    h.add(copy);
                }
            }
        }
        NOT_BROKEN(d);
        verify();
    }
    // To the end with the views verified at each event.
    for (unsigned k = 0; k < 4000; ++k) {
        Ev e = d.step();
        if (e.type == Ev::SEND) {
            size_t i = d.by_handle[e.handle];
            Bytes copy(e.data, e.data + e.size);
            CHECK(copy == d.txns[i].data, "identical", "transmission differs from the first one");
            if (d.txns[i].sends.size() == 1) { check_content(i); } else { EV("identical retransmissions"); }
            if (views.size() < 400) { views.push_back(View{e.data, e.size, copy, i}); }
        }
        if (k % 4 == 0) { verify(); }
        if (e.type == Ev::IDLE) { break; }
        if (e.type == Ev::SLEEP) { d.now += std::max<us>(1, e.sleep); }
    }
    c.distinct(h);
    if (!d.txns.empty()) { c.sample(vf::hex(d.txns[0].data)); }
}

// ---------------------------------------------------------------- P22
// One client is driven by its own sleeps, another one is polled more often, with the same responses.
GROUP("P22", "twins", 3000, 200000) {
    Settings s = random_settings(c.rng);
    uint64_t base = random_base(c.rng), seed = c.rng.u64();
    Driver d(s, base, seed), busy(s, base, seed);
    unsigned events = 6 + (unsigned)c.rng.below(20);
    vf::Hash h;
    auto same = [&] {
        NOT_BROKEN(d);
        NOT_BROKEN(busy);
        CHECK(d.trace == busy.trace, "trace", "polling more often changes what happens: " << busy.show_trace(20) << " INSTEAD OF " << d.show_trace(20));
    };
    auto extra_polls = [&](us until, bool inclusive) { // of the busy one
        unsigned n = (unsigned)c.rng.below(4);
        while (n--) {
            us gap = until - busy.now - (inclusive ? 0 : 1);
            if (gap <= 0) { break; }
            busy.now += (us)c.rng.below((uint64_t)gap + 1);
            if (busy.now >= until && !inclusive) { break; }
            auto evs = busy.poll();
            CHECK(evs.empty(), "overslept", evs[0].show() << " at " << busy.now << " although the client was told to sleep until " << until);
            CHECK(busy.last.type == Ev::SLEEP && busy.last.sleep > 0, "busy.sleep", "between two events: " << busy.last.show());
            EV("extra polls");
        }
    };
    auto advance = [&](us to) { // d by its sleeps up to the time `to`
        unsigned guard = 0;
        for (;;) {
            auto evs = d.poll();
            busy.now = d.now;
            busy.poll();
            same();
            bool idle = d.last.type == Ev::IDLE;
            CHECK((busy.last.type == Ev::IDLE) == idle, "busy.idle", "one is idle, the other one is not");
            CHECK(!idle || d.live() == 0, "idle", "idle with " << d.live() << " live transactions: " << d.show_trace());
            if (idle) { EV("idle"); d.now = busy.now = to == std::numeric_limits<us>::max() ? d.now : to; return; }
            CHECK(d.last.sleep > 0, "sleep", "sleep of " << d.last.sleep << "us");
            CHECK(++guard < 5000, "endless", "driving by sleeps does not end: " << d.show_trace());
            EV("sleeps");
            if (to - d.now <= d.last.sleep) {
                if (to - d.now < d.last.sleep) { extra_polls(to, true); d.now = busy.now = to; auto a = d.poll(); CHECK(a.empty(), "overslept", a[0].show() << " before the end of the sleep"); busy.poll(); same(); return; }
                d.now = to; extra_polls(to, false); busy.now = to;
                d.poll(); busy.poll(); same();
                return;
            }
            us until = d.now + d.last.sleep;
            extra_polls(until, false);
            d.now = busy.now = until;
        }
    };
    while (events--) {
        unsigned what = (unsigned)c.rng.below(8);
        if (what < 3 && d.txns.size() < 8) {
            TxSpec t;
            t.path = random_path(c.rng, 3);
            random_auth(c.rng, t, 1, 4);
            d.create(t); busy.create(t);
            EV("transactions");
        } else if (what < 5 && !d.txns.empty()) {
            size_t i = c.rng.below(d.txns.size());
            Bytes p = random_reply(c.rng, d.txns[i]).bytes();
            auto a = d.respond(p), b = busy.respond(p);
            CHECK(a.is_some() == b.is_some(), "response", "response is accepted by one of the twins");
        } else {
            advance(d.now + (us)c.rng.below((uint64_t)s.rto * 6 + 5));
        }
        h.add(what).add((uint64_t)d.now);
    }
    advance(std::numeric_limits<us>::max());
    CHECK(d.live() == 0, "idle", "idle with live transactions");
    c.distinct(h);
    c.sample(d.show_trace(8));
}
// The sleep of a client ends no later than the earliest event of the schedule.
GROUP("P22", "schedule", 2500, 150000) {
    Settings s = random_settings(c.rng);
    s.server_error = c.rng.coin() ? (us)c.rng.range(1, 4 * s.rto) : -1;
    s.server_error_max = (unsigned)c.rng.below(4);
    Driver d(s, random_base(c.rng), c.rng.u64());
    std::vector<Schedule> sch;
    struct Put { us until = -1; unsigned n = 0; };
    std::vector<Put> put; // off by server errors
    unsigned steps = 60;
    vf::Hash h;
    while (steps--) {
        if (c.rng.chance(1, 3) && d.live() < 6) {
            TxSpec t;
            t.path = PathSpec{{10, 0, 0, 1}, {10, 0, 0, 2}};
            CHECK(d.create(t) >= 0, "create", d.create_error);
            sch.emplace_back(s, d.now, s.rto);
            put.emplace_back();
        } else if (s.server_error >= 0 && c.rng.chance(1, 4) && d.live()) {
            std::vector<size_t> live;
            for (size_t i = 0; i < d.txns.size(); ++i) { if (d.txns[i].live()) { live.push_back(i); } }
            size_t i = c.rng.pick(live);
            CHECK(d.respond(error_reply(d.txns[i], 500 + (unsigned)c.rng.below(100)).bytes()).is_none(), "refused", "server error is refused");
            if (put[i].n < s.server_error_max) { ++put[i].n; put[i].until = d.now + s.server_error; EV("put off by server errors"); }
        } else if (c.rng.chance(1, 6) && !d.txns.empty()) { // over without a measurement
            size_t i = c.rng.below(d.txns.size());
            d.respond(error_reply(d.txns[i], 400).bytes());
        } else {
            us due = d.now + s.rto;
            for (size_t i = 0; i < sch.size(); ++i) {
                // After a server error only the end of the wait is exact, so these are polled just then.
                if (put[i].until >= 0) { due = std::min(due, put[i].until); }
                else if (!sch[i].over) { due = std::min(due, std::max(d.now, sch[i].due)); }
            }
            d.now = c.rng.coin() ? due : d.now + (us)c.rng.below((uint64_t)(due - d.now) + 1);
        }
        auto evs = d.poll();
        us due = std::numeric_limits<us>::max();
        for (size_t i = 0; i < sch.size(); ++i) {
            if (put[i].n == 0) { sch[i].poll(d.now); }
            else { sch[i].due = std::numeric_limits<us>::max(); }
            if (!d.txns[i].live()) { sch[i].over = true; put[i].until = -1; }
            if (put[i].until >= 0 && put[i].until <= d.now) {
                bool sent = false;
                for (auto& e : evs) { sent |= e.handle == d.txns[i].handle; }
                CHECK(sent, "overslept", "retry after a server error was due at " << put[i].until << ", now " << d.now << ": " << d.show_trace());
                put[i].until = -1;
            }
            if (put[i].until >= 0) { due = std::min(due, put[i].until); EV("sleeps with a retry due"); }
            else if (!sch[i].over) { due = std::min(due, sch[i].due); }
        }
        NOT_BROKEN(d);
        if (d.last.type == Ev::IDLE) { CHECK(due == std::numeric_limits<us>::max(), "idle", "idle at " << d.now << " although something is due at " << due); }
        else {
            CHECK(d.last.sleep > 0, "sleep", "sleep of " << d.last.sleep);
            CHECK(due == std::numeric_limits<us>::max() || d.now + d.last.sleep <= due, "overslept", "sleep until " << d.now + d.last.sleep << " although something is due at " << due << ": " << d.show_trace());
            if (due != std::numeric_limits<us>::max()) { EV("sleeps with something due"); }
        }
        h.add((uint64_t)d.now).add((uint64_t)d.last.sleep);
    }
    c.distinct(h);
}

// ---------------------------------------------------------------- P23
namespace {
struct OneValue : util::hash::dynamic::Algorithm<stun::TransactionId> {
    std::size_t hash(const stun::TransactionId&) const noexcept override { return 42; }
};
struct FirstByte : util::hash::dynamic::Algorithm<stun::TransactionId> {
    std::size_t hash(const stun::TransactionId& t) const noexcept override { auto v = t.view(); return v.size() ? *v.begin() & 3 : 0; }
};
template<typename A> stun::TransactionIdHash hash_of() { return stun::TransactionIdHash::create<util::hash::dynamic::AlgorithmSingleton<stun::TransactionId, A>>(); }
}
GROUP("P23", "identities", 3000, 200000) {
    Settings s = random_settings(c.rng);
    s.rto = 500000; s.rc = 7; s.max_rto = 0; s.server_error = -1;
    switch (c.rng.below(4)) {
    case 0: s.hash = hash_of<OneValue>; EV("all ids collide"); break;
    case 1: s.hash = hash_of<FirstByte>; break;
    case 2: s.hash = [] { return stun::MurmurTransactionIdHash<>::create(); }; break;
    default: break;
    }
    Driver d(s, random_base(c.rng), c.rng.u64());
    Life life;
    std::vector<std::array<uint32_t, 3>> pool; // ids the source repeats
    unsigned steps = 30 + (unsigned)c.rng.below(60);
    std::set<Bytes> ids;
    vf::Hash h;
    auto poll_all = [&] {
        auto evs = d.poll();
        NOT_BROKEN(d);
        for (auto& e : evs) {
            if (e.type != Ev::OUTCOME) { continue; }
            size_t i = d.by_handle[e.handle];
            // Timeouts come without responses.
            if (life.final[i].kind == K_NONE && e.outcome.kind == K_TIMEOUT) { continue; }
            CHECK(life.final[i].kind != K_NONE, "other", e.show() << " without a response to this transaction");
            CHECK(e.outcome.same(life.final[i]), "content", e.show() << " instead of " << life.final[i].show());
            EV("completed with own content");
        }
        life.sync(d);
    };
    while (steps--) {
        unsigned what = (unsigned)c.rng.below(10);
        if (what < 4 && d.txns.size() < 40) {
            TxSpec t;
            t.path = random_path(c.rng);
            random_auth(c.rng, t, 1, 4);
            // Words: repeated ids first, then a new one.
            d.words.next.clear(); d.words.pos = 0;
            unsigned repeats = (unsigned)c.rng.below(4);
            std::array<uint32_t, 3> id{c.rng.u32(), c.rng.u32(), c.rng.u32()};
            if (!pool.empty()) {
                // close to an id that is in use
                if (c.rng.coin()) { id = c.rng.pick(pool); id[c.rng.below(3)] ^= 1u << c.rng.below(32); }
                while (repeats--) { auto& q = c.rng.pick(pool); d.words.next.insert(d.words.next.end(), q.begin(), q.end()); }
            }
            d.words.next.insert(d.words.next.end(), id.begin(), id.end());
            // The first id in the sequence that no transaction holds is the one to be used.
            std::vector<Bytes> offered;
            for (size_t k = 0; k + 2 < d.words.next.size(); k += 3) { Bytes b(12); std::memcpy(b.data(), &d.words.next[k], 12); offered.push_back(b); }
            auto held = [&](const Bytes& b) { for (auto& x : d.txns) { if (x.live() && x.tid == b) { return true; } } return false; };
            size_t first = 0;
            while (first < offered.size() && held(offered[first])) { ++first; }
            // Sequence of its own when all ids are held.
            int i = d.create(t);
            CHECK(i >= 0, "create", d.create_error);
            life.sync(d);
            if (first < offered.size()) {
                CHECK(d.words.given.size() == 3 * (first + 1) && d.txns[i].tid == offered[first], "source", "id " << vf::hex(d.txns[i].tid) << " after " << d.words.given.size() << " words, expected " << vf::hex(offered[first]));
                if (first > 0) { EV("repeated ids skipped"); }
            }
            for (size_t k = 0; k + 1 < d.txns.size(); ++k) {
                if (d.txns[k].live()) {
                    CHECK(d.txns[k].tid != d.txns[i].tid, "same.id", "two live transactions have the id " << vf::hex(d.txns[i].tid));
                    CHECK(d.txns[k].handle != d.txns[i].handle, "same.handle", "two live transactions have the handle " << d.txns[i].handle);
                }
            }
            std::array<uint32_t, 3> used;
            std::memcpy(used.data(), d.txns[i].tid.data(), 12);
            pool.push_back(used);
            if (c.rng.coin()) { poll_all(); CHECK(d.txns[i].data.size() >= 20 && std::equal(d.txns[i].tid.begin(), d.txns[i].tid.end(), d.txns[i].data.begin() + 8), "wire.id", "id on the wire differs from the words of the source"); EV("ids on the wire"); }
            h.add(d.txns[i].tid);
            EV("transactions");
        } else if (what < 8 && !d.txns.empty()) {
            size_t i = c.rng.below(d.txns.size());
            Reply rep = random_reply(c.rng, d.txns[i], false);
            if (c.rng.chance(1, 3)) { rep.tid[c.rng.below(12)] ^= (uint8_t)(1u << c.rng.below(8)); }
            if (c.rng.chance(1, 12)) { rep.tid = c.rng.bytes(16); rep.cls = 0; rep.tid[0] = 0; } // without cookie
            Bytes p = rep.bytes();
            Verdict v = classify(p, d.txns, life.live, s);
            if (v.unspecified) { continue; }
            auto err = d.respond(p, c.rng.chance(1, 4));
            CHECK(err.is_some() == (v.type == Verdict::ERROR), "accepted", "response is " << (err.is_some() ? "refused: " + err.unwrap().message() : std::string("accepted")) << ": " << vf::hex(p));
            if (v.type == Verdict::ERROR && v.ec) {
                CHECK(err.unwrap() == v.ec, "error", err.unwrap().message() << " instead of " << v.ec.message());
                if (v.txn < 0) { EV("unknown ids refused"); }
            }
            if (v.type == Verdict::FINAL) { life.live[v.txn] = false; life.final[v.txn] = v.outcome; }
            poll_all();
        } else {
            d.now += (us)c.rng.below(300); // nothing is due
            poll_all();
        }
    }
    poll_all();
    c.distinct(h);
}
// All live transactions answered in random order, each with its own address.
GROUP("P23", "many", 100, 4000) {
    Settings s;
    if (c.rng.coin()) { s.hash = hash_of<OneValue>; EV("all ids collide"); }
    Driver d(s, random_base(c.rng), c.rng.u64());
    unsigned n = 20 + (unsigned)c.rng.below(c.thorough ? 400 : 80);
    std::vector<size_t> order;
    for (unsigned i = 0; i < n; ++i) { TxSpec t; t.path = random_path(c.rng); random_auth(c.rng, t, 1, 4); CHECK(d.create(t) >= 0, "create", d.create_error); order.push_back(i); }
    d.poll();
    for (size_t i = n; i > 1; --i) { std::swap(order[i - 1], order[c.rng.below(i)]); }
    for (size_t i : order) {
        ref::Addr a = ref::random_addr(c.rng);
        CHECK(d.respond(success_reply(d.txns[i], a).bytes()).is_none(), "refused", "response is refused");
        auto evs = d.poll();
        CHECK(evs.size() == 1 && evs[0].handle == d.txns[i].handle && evs[0].outcome.kind == K_OK && evs[0].outcome.addr == a, "content", (evs.empty() ? "nothing" : evs[0].show()) << " instead of success " << show(a) << " of #" << d.txns[i].handle);
        EV("completed with own content");
    }
    CHECK(d.live() == 0, "left", "transactions left");
    c.distinct(vf::Hash().add(d.txns[0].tid));
}
// Very many live transactions, more than 16 bits can number.
GROUP("P23", "crowd", 12, 40) {
    Settings s;
    Driver d(s, random_base(c.rng), c.rng.u64());
    const unsigned n = c.idx == 0 ? 70000 : c.idx < 4 ? 5000 : 257 + (unsigned)c.rng.below(800);
    std::set<unsigned> handles;
    std::set<Bytes> ids;
    for (unsigned i = 0; i < n; ++i) {
        TxSpec t;
        CHECK(d.create(t) >= 0, "create", d.create_error);
        CHECK(handles.insert(d.txns[i].handle).second, "same.handle", "handle " << d.txns[i].handle << " is given again, " << i + 1 << " transactions live");
        CHECK(ids.insert(d.txns[i].tid).second, "same.id", "id is given again, " << i + 1 << " transactions live");
    }
    CHECK(d.poll().size() == n && d.last.type == Ev::SLEEP, "sends", "not all of " << n << " transactions are sent");
    NOT_BROKEN(d);
    std::set<size_t> done;
    for (unsigned k = 0; k < 120; ++k) {
        size_t i = c.rng.below(n);
        if (k < 20) { i = k % 2 ? n - 1 - k / 2 : k / 2; }
        ref::Addr a = ref::random_addr(c.rng);
        bool over = done.count(i);
        auto err = d.respond(success_reply(d.txns[i], a).bytes());
        CHECK(err.is_some() == over, "refused", "response is " << (over ? "accepted" : "refused"));
        auto evs = d.poll();
        if (over) { CHECK(evs.empty(), "other", evs[0].show()); continue; }
        done.insert(i);
        CHECK(evs.size() == 1 && evs[0].handle == d.txns[i].handle && evs[0].outcome.kind == K_OK && evs[0].outcome.addr == a, "content", (evs.empty() ? "nothing" : evs[0].show()) << " instead of success " << show(a) << " of #" << d.txns[i].handle);
        EV("completed with own content");
    }
    EVN("transactions live at once", n);
    c.distinct(vf::Hash().add(d.txns[0].tid));
    c.sample(std::to_string(n) + " live transactions");
}
// The source repeats ids of the first, the last and of other transactions while hundreds are live.
GROUP("P23", "crowd repeated", 40, 400) {
    static const unsigned K[] = {1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 200, 255, 256, 257, 400, 511, 513, 1024, 1500};
    Settings s;
    if (c.rng.chance(1, 3)) { s.hash = hash_of<FirstByte>; }
    Driver d(s, random_base(c.rng), c.rng.u64());
    unsigned n = K[c.idx % 20];
    auto words = [&](size_t i) { std::array<uint32_t, 3> id; std::memcpy(id.data(), d.txns[i].tid.data(), 12); return id; };
    auto create = [&](unsigned repeats) {
        d.words.next.clear(); d.words.pos = 0;
        std::vector<size_t> live;
        for (size_t i = 0; i < d.txns.size(); ++i) { if (d.txns[i].live()) { live.push_back(i); } }
        for (unsigned k = 0; k < repeats && !live.empty(); ++k) {
            auto id = words(k == 0 ? live.front() : k == 1 ? live.back() : c.rng.pick(live));
            d.words.next.insert(d.words.next.end(), id.begin(), id.end());
            EV("repeated ids offered");
        }
        Bytes fresh(12);
        std::array<uint32_t, 3> id{c.rng.u32(), c.rng.u32(), c.rng.u32()};
        d.words.next.insert(d.words.next.end(), id.begin(), id.end());
        std::memcpy(fresh.data(), id.data(), 12);
        int i = d.create(TxSpec{});
        CHECK(i >= 0, "create", d.create_error);
        CHECK(d.txns[(size_t)i].tid == fresh, "same.id", "id " << vf::hex(d.txns[(size_t)i].tid) << " of a live transaction is given again instead of " << vf::hex(fresh) << ", " << live.size() << " transactions live");
    };
    for (unsigned i = 0; i < n; ++i) { create(i % 16 == 15 ? 2 : 0); if (c.rng.chance(1, 20)) { d.now += 1; d.poll(); } }
    for (unsigned k = 0; k < 24; ++k) {
        create(1 + (unsigned)c.rng.below(4));
        if (c.rng.coin()) { d.poll(); }
        // One ends; its id may come back.
        size_t i = c.rng.below(d.txns.size());
        if (!d.txns[i].live()) { continue; }
        ref::Addr a = ref::random_addr(c.rng);
        d.poll();
        CHECK(d.respond(success_reply(d.txns[i], a).bytes()).is_none(), "refused", "response is refused");
        auto evs = d.poll();
        CHECK(evs.size() == 1 && evs[0].handle == d.txns[i].handle && evs[0].outcome.kind == K_OK && evs[0].outcome.addr == a, "content", (evs.empty() ? "nothing" : evs[0].show()) << " instead of success " << show(a) << " of #" << d.txns[i].handle);
        EV("completed with own content");
    }
    NOT_BROKEN(d);
    c.distinct(vf::Hash().add(d.txns[0].tid));
}
// A few transactions stay while very many others come and go.
GROUP("P23", "turnover", 4, 16) {
    Settings s;
    s.rto = 100000000; s.rc = 1;
    Driver d(s, random_base(c.rng), c.rng.u64());
    const unsigned n = c.idx == 0 || c.thorough ? 70000 : 3000;
    std::vector<unsigned> kept;
    std::vector<Bytes> kept_ids;
    unsigned at = (unsigned)c.rng.below(300);
    for (unsigned i = 0; i < n; ++i) {
        d.txns.clear(); // those that stay are tracked here
        d.by_handle.clear();
        d.trace.clear();
        CHECK(d.create(TxSpec{}) == 0, "create", d.create_error);
        auto& t = d.txns[0];
        for (size_t k = 0; k < kept.size(); ++k) { CHECK(kept[k] != t.handle && kept_ids[k] != t.tid, "same.handle", "handle " << t.handle << " or id is given to a second live transaction after " << i << " others"); }
        auto evs = d.poll();
        CHECK(evs.size() == 1 && evs[0].type == Ev::SEND, "sends", "new transaction is not sent");
        if (i == at || i == at + 255 || i == at + 257) { kept.push_back(t.handle); kept_ids.push_back(t.tid); continue; }
        ref::Addr a = ref::random_addr(c.rng);
        CHECK(d.respond(success_reply(t, a).bytes()).is_none(), "refused", "response is refused");
        evs = d.poll();
        CHECK(evs.size() == 1 && evs[0].handle == t.handle && evs[0].outcome.addr == a, "content", (evs.empty() ? "nothing" : evs[0].show()));
    }
    NOT_BROKEN(d);
    d.txns.clear(); d.by_handle.clear();
    // Those that stayed end as usual.
    for (size_t k = 0; k < kept.size(); ++k) { Txn t; t.handle = kept[k]; t.tid = kept_ids[k]; d.by_handle[t.handle] = d.txns.size(); d.txns.push_back(t); }
    d.drain();
    NOT_BROKEN(d);
    for (auto& t : d.txns) { CHECK(t.outcomes == 1 && t.outcome.kind == K_TIMEOUT, "left", "transaction #" << t.handle << " that was live during " << n << " others has " << t.outcomes << " outcomes"); }
    EVN("transactions one after another", n);
    c.distinct(vf::Hash().add(kept_ids[0]));
}
