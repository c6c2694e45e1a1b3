// P05: hostile bytes through everything that takes STUN packets, under the
// sanitizers; parsed messages must own what they hold.
#include "clientlib.hpp"
#include "stun/stun_server_stateless.hpp"
#include "worktime.hpp"

using namespace cl;

namespace {

struct Stage { // a server and a client that meet the packets
    stun::server::Stateless server{crypto::openssl::sha1};
    Driver client;
    std::vector<Bytes> keys;
    explicit Stage(Rng& r) : client(Settings{}, r.u64(), r.u64()) {
        for (unsigned i = 0; i < 3; ++i) {
            Bytes name = r.bytes(r.below(9)), key = r.bytes(r.one_of<size_t>({0, 8, 64, 65, 100}));
            server.add_user(precis::OpaqueString{std::string(name.begin(), name.end())}, password(key));
            keys.push_back(key);
        }
    }
};

// All that can be done with a packet. Returns whether it was accepted.
bool use(vf::Ctx& c, Stage& st, const Bytes& p, bool fresh_client = true) {
    Rng& r = c.rng;
    ref::Decoded d = ref::decode(p);
    Bytes key = r.coin() ? r.pick(st.keys) : r.bytes(r.below(80));
    stun::ParseStat stat;
    Maybe<stun::Message> m = None{};
    {
        vf::Exact x(p, r.below(8));
        auto res = stun::Message::parse(view(x), stat);
        if (res.is_ok()) { m = std::move(res.unwrap()); }
        else { (void)res.unwrap_err().message(); (void)res.unwrap_err().category().name(); }
        uint64_t h = m.is_some() ? digest(m.unwrap()) : 0;
        if (m.is_some()) {
            auto v = m.unwrap().is_valid(view(x), integrity(key));
            if (v.is_ok() && v.unwrap().is_some()) { EV("integrity checked"); }
        }
        x.release();
        if (m.is_some()) { CHECK(digest(m.unwrap()) == h, "not.owned", "the parsed message changes with its packet: " << vf::hex(p)); EV("messages outlive packets"); }
    }
    if (m.is_some()) {
        auto& msg = m.unwrap();
        if (d.ok && !d.lenient) { std::string w = differs(msg, d); CHECK(w.empty(), "differs", w << vf::hex(p)); }
        auto b1 = msg.build();
        auto b2 = msg.build(integrity(key));
        EVN("rebuilt", b1.is_ok() + b2.is_ok());
        if (b1.is_ok()) { stun::ParseStat s2; Bytes q(b1.unwrap().begin(), b1.unwrap().end()); vf::Exact x(q); (void)stun::Message::parse(view(x), s2); }
        // The copy is independent of the original.
        uint64_t h = digest(msg);
        auto copy = std::make_unique<stun::Message>(msg);
        CHECK(digest(*copy) == h, "copy", "a copy of the message differs: " << vf::hex(p));
        stun::Message moved(std::move(*copy));
        copy.reset();
        CHECK(digest(moved) == h && digest(msg) == h, "copy", "a moved message differs: " << vf::hex(p));
        EV("parsed");
    }
    {
        vf::Exact x(p, r.below(4));
        ref::Addr from = ref::random_addr(r);
        auto res = st.server.process(endpoint(from, r.coin()), view(x));
        x.release();
        if (auto* a = std::get_if<stun::server::Stateless::Respond>(&res)) {
            (void)digest(a->response); (void)digest(a->request);
            auto b = a->response.build(a->maybe_integrity);
            EVN("answered", b.is_ok());
        } else if (auto* i = std::get_if<stun::server::Stateless::Ignore>(&res)) {
            if (i->message.is_some()) { (void)digest(i->message.unwrap()); }
        }
    }
    {
        Driver* cl = &st.client;
        std::unique_ptr<Driver> own;
        if (fresh_client) { own = std::make_unique<Driver>(Settings{}, r.u64(), r.u64()); cl = own.get(); }
        if (p.size() >= 20) { // a transaction the packet answers
            TxSpec t;
            t.auth = r.chance(1, 3);
            t.key = key;
            t.name = {1, 2};
            cl->words.next.resize(3);
            cl->words.pos = 0;
            std::memcpy(cl->words.next.data(), &p[8], 12);
            CHECK(cl->create(t) >= 0, "create", "no transaction: " << cl->create_error);
            cl->words.next.clear();
            if (r.coin()) { cl->poll(); }
        }
        bool taken = cl->respond(p, r.coin()).is_none();
        EVN("taken by client", taken);
        if (r.coin()) { cl->respond(p, r.coin()); }
        cl->poll();
        CHECK(cl->broken.empty(), "client", cl->broken << " after " << vf::hex(p));
    }
    c.distinct(vf::Hash().add(p));
    EV("packets");
    return m.is_some();
}

Bytes header(Rng& r, size_t len) {
    Bytes p;
    ref::put16(p, ref::msg_type((unsigned)r.below(4), r.coin() ? 1 : (unsigned)r.below(4096)));
    ref::put16(p, (uint32_t)len);
    ref::put32(p, ref::COOKIE);
    Bytes t = r.bytes(12);
    p.insert(p.end(), t.begin(), t.end());
    return p;
}

}

// Values of attributes by themselves, without the padding that follows them in packets:
// they mean the same in blocks of the exact size and within other bytes.
GROUP("P05", "values", 20000, 1500000) {
    Bytes tid = ref::random_tid(c.rng);
    uint16_t type = c.rng.chance(1, 6) ? ref::random_unknown_type(c.rng) : c.rng.pick(ref::known_types());
    Bytes v = ref::random_value(c.rng, type, tid);
    switch (c.rng.below(5)) {
    case 0: v = c.rng.bytes(c.rng.below(c.rng.chance(1, 10) ? 2000 : 24)); break;
    case 1: if (!v.empty()) { v.resize(c.rng.below(v.size() + 1)); } break;
    case 2: if (!v.empty()) { v[c.rng.below(v.size())] = c.rng.u8(); } break;
    case 3: if (!v.empty() && c.rng.coin()) { v.insert(v.end(), v.begin(), v.end()); } break;
    default: break;
    }
    auto parse = [&](util::ConstBinaryView w, bool& ok, std::string& error) {
        stun::ParseStat st;
        stun::Message m{stun::Header{stun::Class::success_response(), stun::Method::binding(), stun::TransactionId(view(tid))}, stun::AttributeSet{}, stun::IsRFC3489{false}, none()};
        auto r = stun::Attribute::parse(w, stun::AttributeType::from_uint16(type), st);
        ok = r.is_ok();
        if (!ok) { error = r.unwrap_err().message(); return m; }
        auto& a = r.unwrap();
        if (auto* k = std::get_if<stun::Attribute>(&a)) { m.attribute_set.emplace(std::move(*k)); } else { m.attribute_set.emplace(std::move(std::get<stun::UnknownAttribute>(a))); }
        return m;
    };
    bool ok1 = false, ok2 = false;
    std::string e1, e2;
    vf::Exact x(v, c.rng.below(8));
    stun::Message m1 = parse(view(x), ok1, e1);
    x.release();
    Bytes whole = c.rng.bytes(c.rng.below(8));
    size_t off = whole.size();
    whole.insert(whole.end(), v.begin(), v.end());
    for (unsigned n = 0; n < 12; ++n) { whole.push_back(c.rng.coin() ? 0xff : c.rng.u8()); }
    stun::Message m2 = parse(util::ConstBinaryView(whole.data() + off, v.size()), ok2, e2);
    std::fill(whole.begin(), whole.end(), 0xee);
    auto show = [&] { return "attribute " + std::to_string(type) + " with value " + vf::hex(v); };
    CHECK(ok1 == ok2 && e1 == e2, "value.surroundings", show() << " depends on what stands around it: '" << e1 << "' and '" << e2 << "'");
    CHECK(digest(m1) == digest(m2), "value.surroundings", show() << " depends on what stands around it");
    auto b1 = m1.build(), b2 = m2.build();
    CHECK(b1.is_ok() == b2.is_ok() && (b1.is_err() || b1.unwrap() == b2.unwrap()), "value.surroundings", show() << " is built differently");
    if (type != ref::A_FINGERPRINT && type != ref::A_INTEGRITY) {
        ref::Enc e(ref::msg_type(2, 1), tid);
        e.attr(type, v);
        ref::Decoded d = ref::decode(e.bytes());
        if (!d.lenient) {
            CHECK(d.ok == ok1, "value.accepted", show() << (ok1 ? " is accepted" : " is refused"));
            if (ok1) { std::string w = differs(m1, d); CHECK(w.empty(), "value.differs", w << show()); EV("values read"); }
        }
    }
    EVN("values refused", !ok1);
    c.distinct(vf::Hash().add(type).add(v));
}

// Well-formed packets with up to 8 hostile changes.
GROUP("P05", "mutated", 12000, 1500000) {
    Stage st(c.rng);
    unsigned n = 1 + (unsigned)c.rng.below(4);
    while (n--) {
        Bytes p = ref::random_message(c.rng).packet;
        unsigned k = (unsigned)c.rng.below(8);
        while (k--) { ref::mutate(c.rng, p); }
        if (c.rng.chance(1, 4)) { ref::refresh_fingerprint(p); }
        if (c.rng.chance(1, 20) && p.size() > 4) { p.resize(c.rng.below(p.size())); }
        use(c, st, p);
        c.sample(vf::hex(p));
    }
}
// Headers that are right with bodies that are not.
GROUP("P05", "bodies", 10000, 1000000) {
    Stage st(c.rng);
    Bytes p;
    size_t room = 4 * c.rng.below(c.rng.chance(1, 10) ? 120 : 16);
    p = header(c.rng, room);
    switch (c.rng.below(3)) {
    case 0: { Bytes b = c.rng.bytes(room); p.insert(p.end(), b.begin(), b.end()); break; }
    case 1: // attribute headers anywhere
        while (p.size() < 20 + room) {
            ref::put16(p, c.rng.chance(3, 4) ? c.rng.pick(ref::known_types()) : c.rng.u32() & 0xffff);
            ref::put16(p, c.rng.chance(3, 4) ? (uint32_t)c.rng.below(28) : c.rng.one_of<uint32_t>({0xffff, 0xfffe, 0xfffd, 0xfffc, 0x8000, 0x7fff, 0x0100, (uint32_t)room, (uint32_t)room + 1}));
            Bytes b = c.rng.bytes(4 * c.rng.below(3));
            if (c.rng.coin() && b.size() > 1) { b[0] = 0; b[1] = (uint8_t)c.rng.below(4); }
            p.insert(p.end(), b.begin(), b.end());
        }
        p.resize(20 + room);
        break;
    default: // known attributes of wrong sizes
        p.resize(20);
        while (c.rng.chance(5, 6) && p.size() < 400) {
            uint16_t t = c.rng.pick(ref::known_types());
            Bytes v = c.rng.coin() ? c.rng.bytes(c.rng.below(24)) : ref::random_value(c.rng, t, c.rng.bytes(12));
            if (c.rng.coin() && v.size() > 1) { v[0] = 0; v[1] = (uint8_t)(1 + c.rng.below(2)); }
            if (c.rng.coin() && !v.empty()) { v.resize(v.size() - 1); }
            ref::put16(p, t); ref::put16(p, (uint32_t)v.size());
            p.insert(p.end(), v.begin(), v.end());
            while (p.size() % 4 != 0) { p.push_back(c.rng.u8()); }
        }
        p[2] = (uint8_t)((p.size() - 20) >> 8); p[3] = (uint8_t)(p.size() - 20);
    }
    if (c.rng.coin()) { ref::refresh_fingerprint(p); }
    use(c, st, p);
}
// Every attribute type with every size, padded and cut anywhere, alone and after another one.
GROUP("P05", "sizes", 13 * 42, 13 * 300) {
    Stage st(c.rng);
    uint16_t t = ref::known_types()[c.idx % 13];
    size_t n = c.idx / 13;
    for (unsigned fam = 0; fam < 4; ++fam) {
        for (bool before : {false, true}) {
            Bytes v = c.rng.bytes(n);
            if (n > 1) { v[0] = 0; v[1] = (uint8_t)fam; }
            ref::Enc e(ref::msg_type((unsigned)c.rng.below(4), 1), ref::random_tid(c.rng));
            if (before) { e.attr(ref::A_SOFTWARE, c.rng.bytes(c.rng.below(5))); }
            e.attr(t, v, c.rng.u8());
            Bytes p = e.bytes();
            use(c, st, p);
            // Cut, with the length adjusted and not.
            Bytes q = p;
            q.resize(20 + c.rng.below((p.size() - 20) / 4 + 1) * 4);
            use(c, st, q);
            q[2] = (uint8_t)((q.size() - 20) >> 8); q[3] = (uint8_t)(q.size() - 20);
            use(c, st, q);
            EV("type and size pairs");
        }
    }
}
// Every prefix of a packet; every byte of it at extremes.
GROUP("P05", "prefixes", 160, 6000) {
    Stage st(c.rng);
    Bytes p = ref::random_message(c.rng).packet;
    if (p.size() > 300) { p.resize(300); }
    for (size_t n = 0; n <= p.size(); ++n) { use(c, st, Bytes(p.begin(), p.begin() + n)); EV("prefixes"); }
    for (size_t n = 0; n < p.size(); ++n) {
        for (uint8_t v : {0x00, 0xff, 0x7f, 0x80, 0x01}) {
            if (!c.thorough && c.rng.chance(4, 5)) { continue; }
            Bytes q = p; q[n] = v;
            if (c.rng.coin()) { ref::refresh_fingerprint(q); }
            use(c, st, q);
        }
    }
}
// No structure at all.
GROUP("P05", "noise", 4000, 400000) {
    Stage st(c.rng);
    Bytes p = c.rng.bytes(c.rng.chance(1, 20) ? c.rng.below(3000) : c.rng.below(80));
    if (c.rng.coin() && !p.empty()) { p[0] &= 0x3f; }
    use(c, st, p);
}
// As large as a datagram can be (and larger), as many attributes as possible.
GROUP("P05", "large", 64, 2000) {
    Stage st(c.rng);
    size_t room = c.rng.one_of<size_t>({65535 - 28 - 20, 65532, 60000, 65536, 70000, 131072}) / 4 * 4;
    Bytes p = header(c.rng, room);
    unsigned kind = (unsigned)(c.idx % 8);
    uint16_t t = kind < 3 ? ref::random_unknown_type(c.rng) : c.rng.pick(ref::known_types());
    while (p.size() < 20 + room) {
        size_t n = kind % 2 ? 0 : kind == 2 ? 20000 : c.rng.below(9);
        if (kind == 4) { t = c.rng.coin() ? c.rng.pick(ref::known_types()) : (uint16_t)c.rng.u32(); n = ref::is_known(t) ? ref::random_value(c.rng, t, c.rng.bytes(12)).size() : 4; }
        if (kind == 6) { t = ref::A_UNKNOWN; n = 2 * c.rng.below(2000); }
        if (kind == 5) { t = (uint16_t)c.rng.u32(); if (ref::is_known(t)) { continue; } }
        n = std::min(n, 20 + room - p.size() - 4);
        ref::put16(p, t); ref::put16(p, (uint32_t)n);
        for (size_t i = 0; i < n; ++i) { p.push_back(kind == 4 && i < 2 ? (uint8_t)i : c.rng.u8()); }
        while (p.size() % 4 != 0) { p.push_back(0); }
    }
    use(c, st, p);
    EV("large packets");
}
// One client and one server meet thousands of hostile packets; afterwards they serve as before.
GROUP("P05", "endurance", 40, 2000) {
    Stage st(c.rng);
    TxSpec t;
    t.auth = true; t.key = c.rng.bytes(20); t.name = c.rng.bytes(5);
    st.client.create(t);
    Bytes tid = st.client.txns[0].tid;
    for (unsigned k = 0; k < 150; ++k) {
        Bytes p = ref::random_message(c.rng).packet;
        unsigned n = 1 + (unsigned)c.rng.below(4);
        while (n--) { ref::mutate(c.rng, p); }
        if (p.size() >= 20 && c.rng.coin()) { std::copy(tid.begin(), tid.end(), p.begin() + 8); ref::refresh_fingerprint(p); }
        vf::Exact x(p);
        st.server.process(endpoint(ref::random_addr(c.rng)), view(x));
        st.client.respond(p, c.rng.coin());
        st.client.now += 10;
        st.client.poll();
        c.distinct(vf::Hash().add(p));
        EV("packets");
    }
    CHECK(st.client.broken.empty(), "client", st.client.broken);
    CHECK(st.client.txns[0].live(), "effect", "hostile packets without the key determine the outcome: " << st.client.txns[0].outcome.show());
    ref::Addr a = ref::random_addr(c.rng);
    CHECK(st.client.respond(success_reply(st.client.txns[0], a).bytes()).is_none(), "after", "authentic response is refused after hostile ones");
    st.client.poll();
    CHECK(st.client.txns[0].outcome.kind == K_OK && st.client.txns[0].outcome.addr == a, "after", "outcome after hostile packets: " << st.client.txns[0].outcome.show());
    ref::Enc e(ref::msg_type(0, 1), ref::random_tid(c.rng));
    Bytes q = e.bytes();
    ref::Addr from = ref::random_addr(c.rng);
    auto res = st.server.process(endpoint(from), view(q));
    auto* ans = std::get_if<stun::server::Stateless::Respond>(&res);
    CHECK(ans != nullptr && ans->response.header.cls == stun::Class::success_response(), "after", "the server does not answer after hostile packets");
    EV("endured");
}

// Work grows in proportion to the packet.
GROUP("P05", "work", 12, 60) {
    unsigned kind = (unsigned)(c.idx % 6);
    auto make = [&](size_t n) {
        Bytes p = header(c.rng, 4 * n);
        p[0] = 0; p[1] = 1;
        switch (kind) {
        case 0: while (p.size() < 20 + 4 * n) { ref::put16(p, 0xff01); ref::put16(p, 0); } break;                    // same unknown type
        case 1: for (uint32_t t = 0; p.size() < 20 + 4 * n; ++t) { ref::put16(p, 0x7000 + t % 0x0fff); ref::put16(p, 0); } break; // many unknown types
        case 2: while (p.size() < 20 + 4 * n) { ref::put16(p, ref::A_USE); ref::put16(p, 0); } break;               // same known type
        case 3: ref::put16(p, ref::A_SOFTWARE); ref::put16(p, (uint32_t)(4 * n - 4)); p.resize(20 + 4 * n, 'x'); break; // one value
        case 4: ref::put16(p, ref::A_UNKNOWN); ref::put16(p, (uint32_t)(4 * n - 4)); p.resize(20 + 4 * n, 7); break;
        default: ref::put16(p, ref::A_INTEGRITY); ref::put16(p, 20); p.resize(44); while (p.size() < 20 + 4 * n) { ref::put16(p, ref::A_USERNAME); ref::put16(p, 0); } break;
        }
        return p;
    };
    stun::server::Stateless server{crypto::openssl::sha1};
    server.add_user(precis::OpaqueString{""}, password({1, 2, 3}));
    auto from = endpoint(ref::random_addr(c.rng));
    std::string why = vf::grows_linearly(900, 16, make, [&](const Bytes& p) {
        stun::ParseStat st;
        auto r = stun::Message::parse(view(p), st);
        if (r.is_ok()) { (void)r.unwrap().build(integrity({1, 2})); (void)r.unwrap().is_valid(view(p), integrity({1, 2})); EV("work measured"); }
        server.process(from, view(p));
    });
    CHECK(why.empty(), "work", "processing time is not in proportion to the size of the packet (kind " << kind << "): " << why);
    c.distinct(vf::Hash().add(77).add(c.idx));
}
