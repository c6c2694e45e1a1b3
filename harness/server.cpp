// P13, P14: the stateless server against a model of its decisions.
#include "stunlib.hpp"
#include "servergen.hpp"

using namespace lib;
using namespace servergen;

namespace {

enum What { IGNORE, E420, E400, E401, OK };
const char* what_name(What w) { static const char* n[] = {"ignored", "420", "400", "401", "success"}; return n[w]; }

struct Expect {
    What what = IGNORE;
    bool message = false; // ignored with the parsed message
    const User* user = nullptr; // who is authenticated
    bool unspecified = false;
    ref::Decoded d;
};

Expect expect(const World& w, const Bytes& p) {
    Expect e;
    e.d = ref::decode(p);
    if (e.d.lenient) { e.unspecified = true; return e; }
    if (!e.d.ok) { return e; }
    e.message = true;
    if (e.d.cls() != 0 || (e.d.type & ~0x0110) != 1) { return e; }
    if (!e.d.required_unknown().empty()) { e.what = E420; return e; }
    bool u = e.d.has(ref::A_USERNAME), i = e.d.has(ref::A_INTEGRITY);
    if (u != i) { e.what = E400; return e; }
    if (u) {
        e.user = w.find(e.d.known.at(ref::A_USERNAME));
        if (e.user == nullptr || !e.d.signed_by(p, e.user->key)) { e.user = nullptr; e.what = E401; return e; }
    }
    e.what = OK;
    return e;
}

struct Got { What what; bool message = false; Bytes packet; bool error = false; uint64_t hash = 0; };

// Runs one packet through the server and checks the answer. The `check13` and
// `check14` parts belong to the two properties.
Got run(vf::Ctx& c, const World& w, Server& s, const Bytes& p, const ref::Addr& from, bool udp, const Expect& e, bool check13, bool check14) {
    vf::Exact x(p, c.rng.below(4));
    auto result = s.process(endpoint(from, udp), view(x));
    x.release(); // the result owns what it refers to
    auto hx = [&] { return vf::hex(p); };
    Got g{IGNORE};
    if (std::holds_alternative<Server::Error>(result)) {
        CHECK(false, "error", "error " << std::get<Server::Error>(result).error.message() << " for " << hx());
    }
    if (auto* ign = std::get_if<Server::Ignore>(&result)) {
        g.message = ign->message.is_some();
        g.hash = vf::Hash().add(1).add(g.message).add(g.message ? digest(ign->message.unwrap()) : 0).get();
        if (e.unspecified) { return g; }
        if (check13) {
            CHECK(e.what == IGNORE, "ignored", "request is ignored instead of being answered with " << what_name(e.what) << ": " << hx());
            CHECK(g.message == e.message, "ignored.message", "ignored " << (g.message ? "with" : "without") << " a parsed message: " << hx());
            if (g.message) { std::string diff = differs(ign->message.unwrap(), e.d); CHECK(diff.empty(), "ignored.content", diff << hx()); }
        }
        return g;
    }
    auto& rsp = std::get<Server::Respond>(result);
    auto built = rsp.response.build(rsp.maybe_integrity);
    CHECK(built.is_ok(), "build", "response does not build: " << built.unwrap_err().message() << " for " << hx());
    Bytes b(built.unwrap().begin(), built.unwrap().end());
    g.packet = b;
    if (!e.d.ok) {
        CHECK(e.unspecified, "answered.malformed", "malformed packet is answered: " << hx());
        return g;
    }
    // Decode with the model; a response without cookie is looked at as a request.
    Bytes q = b;
    CHECK(b.size() >= 20, "response.size", "response of " << b.size() << " bytes");
    unsigned cls = ref::cls_of((uint16_t)ref::get16(&b[0]));
    if (e.d.rfc3489) { q[0] &= (uint8_t)~1; q[1] &= (uint8_t)~0x10; }
    ref::Decoded r = ref::decode(q);
    auto rx = [&] { return vf::hex(b) + " for " + vf::hex(p); };
    if (check14) {
        CHECK(r.ok, "response.malformed", "response is not well formed (" << r.reason << "): " << rx());
        CHECK(cls == 2 || cls == 3, "response.class", "class " << cls << ": " << rx());
        CHECK((ref::get16(&b[0]) & ~0x0110u) == (e.d.type & ~0x0110u), "response.method", "method differs: " << rx());
        CHECK(r.rfc3489 == e.d.rfc3489 && r.tid == e.d.tid, "response.id", "transaction id differs: " << rx());
        std::string diff = differs(rsp.request, e.d);
        CHECK(diff.empty(), "request", "the request in the result differs: " << diff << rx());
        if (!e.d.rfc3489) {
            stun::ParseStat st;
            vf::Exact bx(b);
            auto again = stun::Message::parse(view(bx), st);
            CHECK(again.is_ok(), "response.refused", "the parser refuses the response: " << rx());
        }
    }
    if (!r.ok) { return g; }
    if (cls == 2) { g.what = OK; }
    else if (r.has(ref::A_ERROR)) {
        unsigned code = r.error_code();
        g.what = code == 420 ? E420 : code == 401 ? E401 : code == 400 ? E400 : IGNORE;
        if (check13) { CHECK(g.what != IGNORE, "code", "error code " << code << ": " << rx()); }
    }
    g.hash = vf::Hash().add(2).add(b).get();
    if (e.unspecified) { return g; }
    if (check13) {
        CHECK(cls == 2 || r.has(ref::A_ERROR), "no.code", "error response without a code: " << rx());
        CHECK(e.what != IGNORE, "answered", "packet that must be ignored is answered with " << what_name(g.what) << ": " << rx());
        CHECK(g.what == e.what, std::string("decision.") + what_name(e.what), "answer is " << what_name(g.what) << " instead of " << what_name(e.what) << ": " << rx());
        if (e.what != OK) {
            CHECK(rsp.maybe_integrity.is_none() && !r.has(ref::A_INTEGRITY), "signed.error", "error response is signed: " << rx());
        }
        if (e.what == E420) {
            std::vector<uint16_t> list;
            CHECK(r.has(ref::A_UNKNOWN), "420.list", "no list of unknown attributes: " << rx());
            auto& v = r.known[ref::A_UNKNOWN];
            for (size_t i = 0; i + 1 < v.size(); i += 2) { list.push_back((uint16_t)ref::get16(&v[i])); }
            CHECK(list == e.d.required_unknown(), "420.list", "list of unknown attributes " << vf::hex(v) << ": " << rx());
        }
    }
    if (check14 && e.what == OK && g.what == OK) {
        std::map<uint16_t, Bytes> want;
        if (e.d.rfc3489) { want[ref::A_MAPPED] = ref::addr_value(from); } else { want[ref::A_XOR] = ref::addr_value(ref::xored(from, e.d.tid)); }
        auto got = r.known;
        bool mac = got.erase(ref::A_INTEGRITY) != 0, fp = got.erase(ref::A_FINGERPRINT) != 0;
        CHECK(got == want && r.unknown.empty(), "address", "success response does not contain exactly the address " << show(from) << ": " << rx());
        CHECK(fp == (w.fingerprint && !e.d.rfc3489), "fingerprint", (fp ? "with" : "without") << " fingerprint: " << rx());
        CHECK(rsp.maybe_integrity.is_some() == (e.user != nullptr) && mac == (e.user != nullptr), "integrity", "response is " << (mac ? "" : "not ") << "signed: " << rx());
        if (mac) { CHECK(ref::integrity_of(b, r.integrity_off, e.user->key) == r.known.at(ref::A_INTEGRITY), "integrity.key", "response is signed with another key: " << rx()); }
    }
    return g;
}

ref::Addr some_source(Rng& r) { return ref::random_addr(r); }

void history(vf::Ctx& c, bool p13, bool p14) {
    World w = random_world(c.rng);
    auto s = w.server();
    unsigned n = 5 + (unsigned)c.rng.below(20);
    Bytes previous;
    while (n--) {
        Bytes p = !previous.empty() && c.rng.chance(1, 6) ? previous : random_packet(c.rng, w);
        previous = p;
        ref::Addr from = some_source(c.rng);
        bool udp = c.rng.chance(3, 4);
        Expect e = expect(w, p);
        Got g = run(c, w, *s, p, from, udp, e, p13, p14);
        if (p14) { // a server without history answers the same
            auto fresh = w.server();
            Got h = run(c, w, *fresh, p, from, udp, e, false, false);
            CHECK(g.what == h.what && g.message == h.message && g.packet == h.packet && g.hash == h.hash, "history", "the answer depends on earlier packets: " << vf::hex(g.packet) << " and " << vf::hex(h.packet) << " for " << vf::hex(p));
        }
        if (!e.unspecified) {
            vf::ev(std::string("answer: ") + what_name(g.what));
            if (e.user) { EV("authenticated"); }
            if (e.what == OK && e.d.rfc3489) { EV("RFC 3489 success"); }
            c.distinct(vf::Hash().add(p).add(from.ip).add(from.port));
            c.sample(std::string(what_name(g.what)) + " for " + vf::hex(p) + " from " + show(from));
        }
    }
}

}

namespace {
// Every length of a name, names that differ in one place, and every number of users
// and of unknown attributes; padding by attributes of every length.
void sizes(vf::Ctx& c, bool p13, bool p14) {
    World w;
    size_t n = c.idx;
    Bytes base = c.rng.bytes(n);
    w.fingerprint = c.rng.coin();
    auto add = [&](const Bytes& name) { if (!w.find(name)) { w.users.push_back(User{name, c.rng.bytes(c.rng.below(100))}); } };
    add(base);
    size_t many = c.rng.chance(1, 4) ? n % 400 : 6;
    for (size_t i = 0; i < many; ++i) {
        Bytes b = base;
        if (b.empty() || c.rng.chance(1, 6)) { b.push_back(c.rng.u8()); } else { b[c.rng.chance(1, 3) ? b.size() - 1 : c.rng.below(b.size())] ^= (uint8_t)(1u << c.rng.below(8)); }
        add(b);
    }
    auto s = w.server();
    for (unsigned k = 0; k < 14; ++k) {
        ref::Enc e(ref::msg_type(0, 1), ref::random_tid(c.rng));
        if (c.rng.chance(1, 5)) { e.attr(ref::random_unknown_type(c.rng, false), c.rng.bytes(n)); }
        if (k == 3) { for (size_t i = 0; i < n % 300; ++i) { e.attr(ref::random_unknown_type(c.rng, true), c.rng.bytes(c.rng.below(5))); } }
        const User& u = c.rng.pick(w.users);
        Bytes name = u.name;
        if (c.rng.chance(1, 5)) { if (name.empty() || c.rng.coin()) { name.push_back(0); } else { name[c.rng.chance(1, 3) ? name.size() - 1 : c.rng.below(name.size())] ^= 1; } }
        if (k != 5) { e.attr(ref::A_USERNAME, name); e.integrity(c.rng.chance(1, 6) ? c.rng.pick(w.users).key : u.key); }
        if (c.rng.coin()) { e.fingerprint(); }
        Bytes p = e.bytes();
        if (p.size() - 20 > 0xffff) { continue; }
        Expect x = expect(w, p);
        run(c, w, *s, p, some_source(c.rng), true, x, p13, p14);
        if (!x.unspecified) { vf::ev(std::string("answer: ") + what_name(x.what)); if (x.user) { EV("authenticated"); } }
        EV("sizes enumerated");
        c.distinct(vf::Hash().add(p));
    }
}
}
GROUP("P13", "sizes", 700, 8000) { sizes(c, true, false); }
GROUP("P14", "sizes", 700, 8000) { sizes(c, false, true); }
GROUP("P13", "histories", 2400, 160000) { history(c, true, false); }
GROUP("P14", "histories", 2000, 120000) { history(c, false, true); }

// Requests with any number of attributes that the server does not know.
namespace {
void many_unknown(vf::Ctx& c, bool p13, bool p14) {
    static const size_t K[] = {127, 128, 254, 255, 256, 257, 511, 512, 1024, 4096, 8191, 16000};
    World w = random_world(c.rng);
    if (w.users.empty()) { w.users.push_back(User{c.rng.bytes(5), c.rng.bytes(9)}); }
    auto s = w.server();
    size_t n = K[c.idx % 12] + (c.idx < 12 ? 0 : c.rng.below(300));
    for (unsigned k = 0; k < 3; ++k) { // all required, all optional, some of each
        ref::Enc e(ref::msg_type(0, 1), ref::random_tid(c.rng));
        for (size_t i = 0; i < n; ++i) {
            e.attr(ref::random_unknown_type(c.rng, k == 0 || (k == 2 && (i == n - 1 || c.rng.chance(1, 3)))), Bytes());
        }
        if (c.rng.coin()) { const User& u = c.rng.pick(w.users); e.attr(ref::A_USERNAME, u.name); e.integrity(u.key); }
        if (c.rng.coin()) { e.fingerprint(); }
        Bytes p = e.bytes();
        if (p.size() - 20 > 0xffff) { continue; }
        Expect x = expect(w, p);
        run(c, w, *s, p, some_source(c.rng), true, x, p13, p14);
        if (!x.unspecified) { vf::ev(std::string("answer: ") + what_name(x.what)); if (x.user) { EV("authenticated"); } }
        EV("requests with many unknown attributes");
        c.distinct(vf::Hash().add(p));
    }
}
}
GROUP("P13", "many unknown", 48, 1200) { many_unknown(c, true, false); }
GROUP("P14", "many unknown", 48, 1200) { many_unknown(c, false, true); }

// Every attribute type that the server does not know, alone and next to another one.
namespace {
void unknown_types(vf::Ctx& c, bool p13, bool p14) {
    World w;
    w.users.push_back(User{c.rng.bytes(5), c.rng.bytes(9)});
    auto s = w.server();
    for (unsigned i = 0; i < 512; ++i) {
        uint16_t type = (uint16_t)((c.idx % 128) * 512 + i);
        if (ref::is_known(type)) { continue; }
        bool classic = c.rng.chance(1, 4);
        ref::Enc e(ref::msg_type(0, 1), ref::random_tid(c.rng));
        unsigned n = c.idx < 128 ? 1 : 1 + (unsigned)c.rng.below(3);
        Bytes v = c.rng.bytes(c.rng.below(6));
        while (n--) { e.attr(type, v); }
        if (c.idx >= 128 && c.rng.coin()) { e.attr(ref::random_unknown_type(c.rng), c.rng.bytes(c.rng.below(5))); }
        if (c.rng.chance(1, 4)) { e.attr(ref::A_USERNAME, w.users[0].name); e.integrity(w.users[0].key); }
        if (!classic && c.rng.chance(1, 4)) { e.fingerprint(); }
        Bytes p = e.bytes();
        if (classic) { uint32_t x = c.rng.coin() ? c.rng.u32() : ref::odd_cookie(c.rng, (unsigned)c.rng.below(5)); for (int k = 0; k < 4; ++k) { p[4 + k] = (uint8_t)(x >> (24 - 8 * k)); } }
        Expect x = expect(w, p);
        run(c, w, *s, p, some_source(c.rng), c.rng.coin(), x, p13, p14);
        if (!x.unspecified) { vf::ev(std::string("answer: ") + what_name(x.what)); }
        EV("unknown types enumerated");
        c.distinct(vf::Hash().add(p));
    }
}
}
GROUP("P13", "unknown types", 128, 1280) { unknown_types(c, true, false); }
GROUP("P14", "unknown types", 128, 1280) { unknown_types(c, false, true); }

// Every bit of a properly signed request changed: never success with credentials.
GROUP("P13", "every bit", 60, 2400) {
    World w = random_world(c.rng);
    if (w.users.empty()) { w.users.push_back(User{c.rng.bytes(5), c.rng.bytes(9)}); }
    auto s = w.server();
    User u = c.rng.pick(w.users);
    ref::Enc e(ref::msg_type(0, 1), ref::random_tid(c.rng));
    e.attr(ref::A_PRIORITY, c.rng.bytes(4)).attr(ref::A_USERNAME, u.name).attr(ref::A_CONTROLLED, c.rng.bytes(8));
    e.integrity(u.key);
    if (c.rng.coin()) { e.fingerprint(); }
    Bytes p = e.bytes();
    ref::Addr from = some_source(c.rng);
    Got ok = run(c, w, *s, p, from, true, expect(w, p), true, false);
    CHECK(ok.what == OK, "decision.success", "signed request is refused " << vf::hex(p));
    for (size_t bit = 0; bit < p.size() * 8; ++bit) {
        Bytes q = p;
        q[bit / 8] ^= (uint8_t)(1u << bit % 8);
        if (c.rng.coin()) { ref::refresh_fingerprint(q); }
        Expect x = expect(w, q);
        Got g = run(c, w, *s, q, from, true, x, true, false);
        if (g.what == OK && x.d.ok && bit / 8 < expect(w, p).d.integrity_off + 24) { CHECK(!x.d.has(ref::A_USERNAME) && !x.d.has(ref::A_INTEGRITY), "tampered", "success for a request that was changed: " << vf::hex(q)); }
        EV("bits of signed requests");
        c.distinct(vf::Hash().add(q));
    }
}

// The hash fails while the integrity is checked: no success.
GROUP("P13", "failing hash", 400, 8000) {
    World w = random_world(c.rng);
    if (w.users.empty()) { w.users.push_back(User{c.rng.bytes(5), c.rng.bytes(9)}); }
    long calls = -1, at = (long)c.rng.below(2);
    bool failed = false;
    auto err = std::make_error_code(std::errc::io_error);
    auto s = w.server([&](const crypto::SHA1Hash::Input& in) -> crypto::SHA1Hash::Result {
        if (calls >= 0 && calls++ == at) { failed = true; return err; }
        return crypto::openssl::sha1(in);
    });
    User u = c.rng.pick(w.users);
    ref::Enc e(ref::msg_type(0, 1), ref::random_tid(c.rng));
    e.attr(ref::A_USERNAME, u.name);
    bool good = c.rng.coin();
    e.integrity(good ? u.key : c.rng.bytes(30));
    if (c.rng.coin()) { e.fingerprint(); }
    Bytes p = e.bytes();
    vf::Exact x(p);
    calls = 0;
    auto r = s->process(endpoint(some_source(c.rng)), view(x));
    CHECK(calls > 0, "hash.unused", "signed request of a known user is decided without the hash function of the server");
    calls = -1;
    if (failed) {
        CHECK(std::holds_alternative<Server::Error>(r), "hash.failed", "request is " << (std::holds_alternative<Server::Respond>(r) ? "answered" : "ignored") << " although its integrity could not be checked");
        CHECK(std::get<Server::Error>(r).error == err, "hash.failed.code", std::get<Server::Error>(r).error.message());
        EV("failures of hash");
    }
    c.distinct(vf::Hash().add(p).add(at));
}

// A user is added twice or later: the first password stays, the user is known from then on.
GROUP("P13", "adding users", 1000, 20000) {
    World w = random_world(c.rng);
    auto s = w.server();
    User u{c.rng.bytes(3 + c.rng.below(9)), c.rng.bytes(c.rng.below(40))};
    if (w.find(u.name)) { return; }
    auto request = [&](const Bytes& key) {
        ref::Enc e(ref::msg_type(0, 1), ref::random_tid(c.rng));
        e.attr(ref::A_USERNAME, u.name).integrity(key);
        return e.bytes();
    };
    ref::Addr from = some_source(c.rng);
    Bytes p = request(u.key);
    run(c, w, *s, p, from, true, expect(w, p), true, false); // unknown yet
    s->add_user(precis::OpaqueString{std::string(u.name.begin(), u.name.end())}, password(u.key));
    w.users.push_back(u);
    Got g = run(c, w, *s, p, from, true, expect(w, p), true, false);
    CHECK(g.what == OK, "added", "added user is refused");
    // Others are as they were.
    for (auto& o : w.users) {
        ref::Enc e(ref::msg_type(0, 1), ref::random_tid(c.rng));
        e.attr(ref::A_USERNAME, o.name).integrity(o.key);
        Bytes q = e.bytes();
        CHECK(run(c, w, *s, q, from, true, expect(w, q), true, false).what == OK, "others", "another user is refused");
    }
    EV("users added");
    c.distinct(vf::Hash().add(u.name).add(u.key));
}

// Thousands of users: each is known by its own password, whenever it was added.
GROUP("P13", "many users", 24, 480) {
    World w = random_world(c.rng);
    auto s = w.server();
    std::map<Bytes, Bytes> users;
    for (auto& u : w.users) { users.emplace(u.name, u.key); }
    std::vector<Bytes> names;
    size_t n = c.rng.one_of<size_t>({300, 1030, 1500, 5000});
    auto ask = [&](const Bytes& name, const Bytes& key) {
        ref::Enc e(ref::msg_type(0, 1), ref::random_tid(c.rng));
        e.attr(ref::A_USERNAME, name).integrity(key);
        World one = w; // the expectation needs the user in question only
        one.users.clear();
        if (auto it = users.find(name); it != users.end()) { one.users.push_back(User{it->first, it->second}); }
        Bytes q = e.bytes();
        return run(c, one, *s, q, some_source(c.rng), true, expect(one, q), true, false).what;
    };
    Bytes stem = c.rng.bytes(c.rng.below(6));
    for (size_t i = 0; i < n; ++i) {
        Bytes name = stem;
        std::string digits = std::to_string(i);
        name.insert(name.end(), digits.begin(), digits.end());
        if (users.count(name)) { continue; }
        Bytes key = c.rng.bytes(c.rng.below(30));
        s->add_user(precis::OpaqueString{std::string(name.begin(), name.end())}, password(key));
        users.emplace(name, key);
        names.push_back(name);
        if (c.rng.chance(1, 20)) { CHECK(ask(name, key) == OK, "many.last", "the user just added is refused"); }
        if (c.rng.chance(1, 20)) { auto& o = names[c.rng.below(names.size())]; CHECK(ask(o, users[o]) == OK, "many.earlier", "a user added earlier is refused"); }
    }
    for (int k = 0; k < 60; ++k) {
        auto& a = names[c.rng.below(names.size())];
        auto& b = names[c.rng.below(names.size())];
        CHECK(ask(a, users[a]) == OK, "many.user", "a user is refused");
        if (users[a] != users[b]) { CHECK(ask(a, users[b]) == E401, "many.other", "a user is accepted with the password of another"); }
        Bytes no = a;
        no.push_back('x');
        if (!users.count(no)) { CHECK(ask(no, users[a]) == E401, "many.unknown", "an unknown user is accepted"); }
    }
    for (auto& u : {names.front(), names.back()}) { CHECK(ask(u, users[u]) == OK, "many.ends", "the first or the last user is refused"); }
    EV("crowds of users");
    EVN("users in crowds", names.size());
    c.distinct(vf::Hash().add(stem).add((uint64_t)n).add(c.idx));
}

// All message types: only binding requests are answered.
GROUP("P13", "all types", 128, 128) {
    World w;
    auto s = w.server();
    for (unsigned i = 0; i < 128; ++i) {
        uint16_t type = (uint16_t)(c.idx * 128 + i);
        ref::Enc e(type, ref::random_tid(c.rng));
        if (c.rng.coin()) { e.attr(0x0013, c.rng.bytes(c.rng.below(6))); } // unknown, comprehension-required
        if (c.rng.coin()) { e.attr(ref::A_USERNAME, c.rng.bytes(3)); }
        Bytes p = e.bytes();
        Expect x = expect(w, p);
        run(c, w, *s, p, some_source(c.rng), true, x, true, false);
        EV("types");
        c.distinct(vf::Hash().add(p));
    }
}

// Each bit of the source address shows up in the answer.
GROUP("P14", "addresses", 4000, 200000) {
    World w = random_world(c.rng);
    auto s = w.server();
    bool old = c.rng.chance(1, 4);
    Bytes tid = c.rng.bytes(old ? 16 : 12);
    if (old) { tid[0] = 0; }
    Bytes p = ref::Enc(ref::msg_type(0, 1), tid).bytes();
    ref::Addr from = some_source(c.rng);
    Expect e = expect(w, p);
    Got g = run(c, w, *s, p, from, c.rng.coin(), e, false, true);
    CHECK(g.what == OK, "no.success", "plain binding request is not answered with success: " << vf::hex(p));
    ref::Addr other = from;
    other.ip[c.rng.below(other.ip.size())] ^= (uint8_t)(1u << c.rng.below(8));
    Got h = run(c, w, *s, p, other, true, e, false, true);
    CHECK(h.packet != g.packet, "address.same", "same answer for different sources");
    EV("sources");
    c.distinct(vf::Hash().add(p).add(from.ip).add(from.port));
}
