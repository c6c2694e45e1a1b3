// P06, P07, P08, P10, P12 (STUN part): messages against the model of stunref.hpp.
#include "stunlib.hpp"
#include "stun/details/stun_fingerprint.hpp"

using namespace lib;

namespace {

std::string about(const ref::Decoded& d) {
    std::ostringstream o;
    if (d.ok) { o << "accepted, type " << d.type << ", " << d.known.size() << " known and " << d.unknown.size() << " unknown attributes"; } else { o << "rejected: " << d.reason; }
    return o.str();
}

// The oracle of P06. Returns whether the library accepted.
bool judge(vf::Ctx& c, const Bytes& p) {
    ref::Decoded d = ref::decode(p);
    vf::Exact x(p, c.rng.below(4));
    stun::ParseStat stat;
    auto r = stun::Message::parse(view(x), stat);
    if (d.ok && !(d.lenient && r.is_err())) {
        CHECK(r.is_ok(), "accept", "well-formed message is rejected (" << r.unwrap_err().message() << "): " << vf::hex(p));
        auto& m = r.unwrap();
        std::string diff = differs(m, d);
        CHECK(diff.empty(), "content", diff << "in " << vf::hex(p));
        // Unknown attributes, seen through a rebuilt message.
        auto b = m.build();
        CHECK(b.is_ok(), "rebuild", b.unwrap_err().message() << " " << vf::hex(p));
        Bytes rebuilt(b.unwrap().begin(), b.unwrap().end());
        std::vector<std::pair<uint16_t, Bytes>> unknown;
        for (size_t o = 20; o + 4 <= rebuilt.size();) {
            uint16_t t = (uint16_t)ref::get16(&rebuilt[o]);
            size_t n = ref::get16(&rebuilt[o + 2]);
            CHECK(o + 4 + n <= rebuilt.size(), "rebuild", "attributes do not fit: " << vf::hex(rebuilt));
            if (!ref::is_known(t)) { unknown.emplace_back(t, Bytes(rebuilt.begin() + o + 4, rebuilt.begin() + o + 4 + n)); }
            o += 4 + (n + 3) / 4 * 4;
        }
        CHECK(unknown == d.unknown, "unknown.order", "unknown attributes are not kept in order: " << vf::hex(p));
        EV("accepted");
        if (d.rfc3489) { EV("RFC 3489 requests"); }
        if (!d.unknown.empty()) { EV("with unknown attributes"); }
        if (d.walk.size() > d.known.size() + d.unknown.size()) { EV("with duplicate or ignored attributes"); }
        c.distinct(vf::Hash().add(p));
    } else if (!d.ok) {
        CHECK(r.is_err(), "reject", "message is accepted, expected rejection for " << d.reason << ": " << vf::hex(p));
        if (!d.lenient) { CHECK(error_matches(r.unwrap_err(), d), "reason", "'" << r.unwrap_err().message() << "' is reported instead of " << d.reason << ": " << vf::hex(p)); }
        vf::ev(std::string("rejected: ") + d.reason);
        c.distinct(vf::Hash().add(p));
    }
    return r.is_ok();
}

}

// Well-formed messages.
GROUP("P06", "well formed", 16000, 1200000) {
    ref::Sample s = ref::random_message(c.rng);
    ref::Decoded d = ref::decode(s.packet);
    CHECK(d.ok, "model", "the model rejects its own message: " << d.reason);
    judge(c, s.packet);
    c.sample(vf::hex(s.packet) + " " + about(d));
}

// Messages with a few hostile changes.
GROUP("P06", "mutated", 24000, 2400000) {
    Bytes p = ref::random_message(c.rng).packet;
    unsigned n = 1 + (unsigned)c.rng.below(3);
    while (n--) { ref::mutate(c.rng, p); }
    if (c.rng.coin()) { ref::refresh_fingerprint(p); }
    judge(c, p);
    c.sample(vf::hex(p) + " " + about(ref::decode(p)));
}

// All message types, with and without the cookie, and all length fields.
GROUP("P06", "all types", 256, 256) {
    for (unsigned i = 0; i < 256; ++i) {
        unsigned type = (unsigned)c.idx * 256 + i;
        for (unsigned cookie = 0; cookie < 8; ++cookie) {
            Bytes p = c.rng.bytes(20);
            p[0] = (uint8_t)(type >> 8); p[1] = (uint8_t)type; p[2] = p[3] = 0;
            for (int k = 0; k < 4; ++k) { if (cookie) { p[4 + k] = (uint8_t)(ref::COOKIE >> (24 - 8 * k)); } }
            if (cookie == 2) { p[4 + c.rng.below(4)] ^= (uint8_t)(1u << c.rng.below(8)); }
            if (cookie > 2) { uint32_t w = ref::odd_cookie(c.rng, cookie - 3); for (int k = 0; k < 4; ++k) { p[4 + k] = (uint8_t)(w >> (24 - 8 * k)); } }
            judge(c, p);
        }
        Bytes q = c.rng.bytes(20 + 4 * c.rng.below(3));
        q[0] = 0; q[1] = 1;
        unsigned len = type; // each value of the length field
        q[2] = (uint8_t)(len >> 8); q[3] = (uint8_t)len;
        judge(c, q);
    }
    EVN("types and lengths enumerated", 256);
}

// All attribute types, several in one message.
GROUP("P06", "attribute types", 1024, 4096) {
    for (unsigned i = 0; i < 64; ++i) {
        unsigned type = (unsigned)((c.idx % 1024) * 64 + i);
        ref::Enc e(ref::msg_type((unsigned)c.rng.below(4), 1), ref::random_tid(c.rng));
        auto put = [&](uint16_t t) { e.attr(t, ref::is_known(t) ? ref::random_value(c.rng, t, c.rng.bytes(12)) : c.rng.bytes(c.rng.below(10))); };
        if (c.rng.chance(1, 4)) { put(ref::random_unknown_type(c.rng)); }
        put((uint16_t)type);
        if (c.rng.chance(1, 4)) { put((uint16_t)(type + (c.rng.coin() ? 1 : 0))); }
        judge(c, e.bytes());
    }
    EVN("attribute types in messages", 64);
}

// Each size of packet and each size of value of each known attribute.
GROUP("P06", "sizes", 13 * 41, 13 * 41) {
    uint16_t type = ref::known_types()[c.idx / 41];
    size_t n = c.idx % 41;
    for (unsigned k = 0; k < 12; ++k) {
        ref::Enc e(ref::msg_type((unsigned)c.rng.below(4), 1), ref::random_tid(c.rng));
        Bytes v = c.rng.bytes(n);
        if (n > 1 && k % 3 != 0) { v[1] = (uint8_t)c.rng.range(1, 2); }
        if (n > 1 && k % 3 == 0 && c.rng.coin()) { v[1] = (uint8_t)c.rng.one_of<int>({0, 3, 4, 0x81, 0x82}); }
        if (c.rng.chance(1, 3)) { e.attr(ref::A_SOFTWARE, c.rng.bytes(c.rng.below(9))); }
        if (k % 4 == 3) { Bytes w = ref::random_value(c.rng, type, c.rng.bytes(12)); e.attr(type, w); } // second one is the bad one
        e.attr(type, v, c.rng.u8());
        if (type != ref::A_FINGERPRINT && c.rng.coin()) { e.fingerprint(); }
        Bytes p = e.bytes();
        judge(c, p);
        if (n + k < 80) { Bytes cut(p.begin(), p.begin() + c.rng.below(p.size() + 1)); judge(c, cut); }
    }
    EV("type and size pairs");
}

// Long values and many attributes, up to the longest message.
GROUP("P06", "long", 700, 30000) {
    ref::Enc e(ref::msg_type((unsigned)c.rng.below(4), 1), ref::random_tid(c.rng));
    unsigned shape = (unsigned)c.rng.below(4);
    size_t limit = c.rng.chance(1, 4) ? 65000 : c.rng.one_of<size_t>({300, 600, 1500, 5000});
    while (e.size() + 40 < limit) {
        size_t room = limit - e.size() - 40;
        uint16_t t = c.rng.one_of<uint16_t>({ref::A_USERNAME, ref::A_SOFTWARE, ref::A_UNKNOWN, ref::A_ERROR, 0});
        if (t == 0) { t = ref::random_unknown_type(c.rng); }
        size_t n = shape == 0 ? room : shape == 1 ? c.rng.below(room + 1) : shape == 2 ? c.rng.below(9) : c.rng.one_of<size_t>({254, 255, 256, 257, 258, 509, 510, 511, 512, 513, 514, 767, 768});
        if (n > room) { break; }
        if (t == ref::A_UNKNOWN && n % 2) { --n; }
        if (t == ref::A_ERROR) { n = std::max<size_t>(n, 4); }
        e.attr(t, c.rng.bytes(n), c.rng.u8());
        if (shape == 3 && c.rng.chance(1, 4)) { break; }
    }
    if (c.rng.coin()) { e.integrity(c.rng.bytes(c.rng.below(70))); }
    if (c.rng.coin()) { e.fingerprint(); }
    Bytes p = e.bytes();
    ref::Decoded d = ref::decode(p);
    CHECK(d.ok, "model", "the model rejects its own message: " << d.reason);
    judge(c, p);
    if (p.size() > 1500) { EV("longer than 1500 bytes"); }
    if (c.rng.chance(1, 3)) { ref::mutate(c.rng, p); judge(c, p); }
}

// Two rules violated at once: the first one is reported.
GROUP("P06", "two violations", 4000, 200000) {
    ref::Enc e(ref::msg_type((unsigned)c.rng.below(4), 1), ref::random_tid(c.rng));
    unsigned n = 2 + (unsigned)c.rng.below(3);
    while (n--) {
        uint16_t t = c.rng.pick(ref::known_types());
        e.attr(t, c.rng.coin() ? c.rng.bytes(c.rng.below(24)) : ref::random_value(c.rng, t, c.rng.bytes(12)));
    }
    Bytes p = e.bytes();
    if (c.rng.chance(1, 3)) { p[2] ^= (uint8_t)c.rng.below(256); p[3] ^= (uint8_t)c.rng.below(256); }
    if (c.rng.chance(1, 3)) { p[4] ^= 0x10; }
    if (c.rng.chance(1, 5)) { p[0] |= 0x40; }
    judge(c, p);
}

// ---------------------------------------------------------------- P12
namespace {
// Parses into a shared statistics object and accounts for the packet.
void account(vf::Ctx& c, stun::ParseStat& stat, const Bytes& p) {
    ref::Decoded d = ref::decode(p);
    auto before = counters(stat);
    vf::Exact x(p);
    bool ok = stun::Message::parse(view(x), stat).is_ok();
    auto after = counters(stat);
    uint64_t reasons = 0;
    std::string which;
    for (size_t i = 0; i < before.size(); ++i) {
        uint64_t delta = after[i].second - before[i].second;
        if (i == 0) { CHECK(delta == (ok ? 1u : 0u), "success", "success grows by " << delta << " for an " << (ok ? "accepted" : "rejected") << " packet " << vf::hex(p)); }
        else if (i == 1) { CHECK(delta == (ok ? 0u : 1u), "error", "error grows by " << delta << " for an " << (ok ? "accepted" : "rejected") << " packet " << vf::hex(p)); }
        else { reasons += delta; if (delta) { which = after[i].first; } }
    }
    CHECK(reasons == (ok ? 0u : 1u), "reasons", reasons << " reasons are counted (" << which << ") for an " << (ok ? "accepted" : "rejected") << " packet " << vf::hex(p));
    if (!ok && !d.ok && !d.lenient) { CHECK(which == d.reason, "reason", which << " is counted instead of " << d.reason << " for " << vf::hex(p)); }
    if (ok) { EV("stun accepted"); } else { vf::ev("stun counted: " + which); }
    c.distinct(vf::Hash().add(p));
}
}

GROUP("P12", "stun history", 600, 40000) {
    stun::ParseStat stat;
    unsigned n = 20 + (unsigned)c.rng.below(40);
    uint64_t total = n;
    while (n--) {
        Bytes p = ref::random_message(c.rng).packet;
        if (c.rng.coin()) {
            unsigned k = 1 + (unsigned)c.rng.below(3);
            while (k--) { ref::mutate(c.rng, p); }
            if (c.rng.coin()) { ref::refresh_fingerprint(p); }
        } else if (c.rng.coin()) { // a bad value of a random attribute
            ref::Enc e(ref::msg_type(2, 1), ref::random_tid(c.rng));
            e.attr(c.rng.pick(ref::known_types()), c.rng.bytes(c.rng.below(24)));
            if (c.rng.chance(1, 3)) { e.attr(c.rng.pick(ref::known_types()), c.rng.bytes(c.rng.below(24))); }
            p = e.bytes();
        }
        account(c, stat, p);
    }
    CHECK(stat.success.count() + stat.error.count() == total, "total", "packets " << total << ", success " << stat.success.count() << ", error " << stat.error.count());
    c.sample("history of " + std::to_string(total) + " packets: " + std::to_string(stat.success.count()) + " accepted");
}

// Long histories: one object accounts for more packets than 16 bits can count (per
// reason, too). Thorough: more than 2^24.
GROUP("P12", "stun long", 16, 64) {
    stun::ParseStat stat;
    const unsigned kinds = 1 + (unsigned)c.idx % 4;
    std::vector<Bytes> some;
    std::vector<std::string> reason; // "success" of an accepted packet
    while (some.size() < kinds) {
        Bytes p;
        if (c.rng.coin()) {
            ref::Enc e(ref::msg_type((unsigned)c.rng.below(4), 1), ref::random_tid(c.rng));
            e.attr(c.rng.pick(ref::known_types()), c.rng.bytes(c.rng.below(24)));
            p = e.bytes();
        } else {
            p = ref::random_message(c.rng).packet;
            if (p.size() > 100) { continue; }
            ref::mutate(c.rng, p);
        }
        ref::Decoded d = ref::decode(p);
        if (d.lenient || d.ok != (c.idx % 8 < 2 && some.empty())) { continue; }
        some.push_back(p);
        reason.push_back(d.ok ? "success" : d.reason);
    }
    std::map<std::string, uint64_t> want;
    const uint64_t n = c.thorough ? (c.idx == 0 ? 20000000 : 300000) : 66000 * kinds + c.rng.below(1000);
    for (uint64_t i = 0; i < n; ++i) {
        size_t k = (size_t)(i % kinds);
        bool good = stun::Message::parse(view(some[k]), stat).is_ok();
        CHECK(good == (reason[k] == "success"), "long.accept", vf::hex(some[k]));
        ++want[reason[k]];
        if (!good) { ++want["error"]; }
        if (i < 8 || (i & 0x1fff) == 0 || i + 1 == n) {
            for (auto& [name, v] : counters(stat)) { CHECK(v == want[name], "long", name << " is " << v << " and not " << want[name] << " after " << i + 1 << " packets"); }
        }
    }
    EVN("packets in long histories", n);
    vf::Hash h;
    for (auto& p : some) { h.add(p); }
    c.distinct(h);
}

// ---------------------------------------------------------------- P07
namespace {

struct Content { // of a message to build
    unsigned cls = 0, method = 1;
    Bytes tid;
    std::vector<stun::Attribute::Value> attrs;
    std::vector<stun::UnknownAttribute> unknown;
    std::map<uint16_t, Bytes> want; // expected bytes by type, without integrity and fingerprint
    std::vector<std::pair<uint16_t, Bytes>> want_unknown;
    bool fingerprint = false;
    size_t length = 0; // of attributes
};

size_t padded(size_t n) { return 4 + (n + 3) / 4 * 4; }

std::array<uint8_t, 20> digest_of(Rng& r) { std::array<uint8_t, 20> a; for (auto& x : a) { x = r.u8(); } return a; }

Content random_content(Rng& r, size_t big = 0) {
    Content k;
    k.cls = (unsigned)r.below(4);
    k.method = r.coin() ? 1 : (unsigned)r.below(4096);
    k.tid = ref::random_tid(r);
    if (k.cls == 0 && r.chance(1, 6)) { k.tid = r.bytes(16); if (ref::get32(k.tid.data()) == ref::COOKIE) { k.tid[0] ^= 1; } }
    stun::TransactionId tid(view(k.tid));
    unsigned n = (unsigned)r.below(r.chance(1, 8) ? 24 : 7);
    auto put = [&](uint16_t t, stun::Attribute::Value&& v, Bytes w) {
        if (!k.want.count(t)) { k.want[t] = w; } // the first one counts
        k.attrs.push_back(std::move(v));
    };
    auto text = [&] { Bytes b = r.bytes(r.chance(1, 10) ? r.below(800) : r.below(24)); return std::string(b.begin(), b.end()); };
    while (n--) {
        uint16_t t = r.pick(ref::known_types());
        switch (t) {
        case ref::A_MAPPED: { auto a = ref::random_addr(r); put(t, stun::MappedAddressAttribute{address(a.ip), net::Port(a.port)}, ref::addr_value(a)); break; }
        case ref::A_ALTERNATE: { auto a = ref::random_addr(r); put(t, stun::AlternateServerAttribute{address(a.ip), net::Port(a.port)}, ref::addr_value(a)); break; }
        case ref::A_XOR: {
            auto a = ref::random_addr(r);
            if (k.tid.size() != 12) { a.ip.resize(4); } // XOR of IPv6 is defined for 96-bit ids only
            put(t, stun::XorMappedAddressAttribute{stun::XoredAddress::from_address(address(a.ip), tid), net::Port(a.port)}, ref::addr_value(ref::xored(a, k.tid)));
            break;
        }
        case ref::A_USERNAME: { auto s = text(); put(t, stun::UsernameAttribute{precis::OpaqueString{s}}, ref::bytes_of(s)); break; }
        case ref::A_SOFTWARE: { auto s = text(); put(t, stun::SoftwareAttribute{s}, ref::bytes_of(s)); break; }
        case ref::A_INTEGRITY: { // must not be taken from the attributes
            k.attrs.push_back(stun::MessageIntegityAttribute::move_from(stun::MessageIntegityAttribute::Digest{crypto::SHA1Hash(digest_of(r))}));
            break;
        }
        case ref::A_FINGERPRINT: k.attrs.push_back(stun::FingerprintAttribute{r.u32()}); k.fingerprint = true; break;
        case ref::A_PRIORITY: { uint32_t v = r.chance(1, 6) ? (uint32_t)r.skewed64() : r.u32(); Bytes b; ref::put32(b, v); put(t, stun::PriorityAttribute{v}, b); break; }
        case ref::A_CONTROLLED: { uint64_t v = r.chance(1, 6) ? r.skewed64() : r.u64(); Bytes b; ref::put64(b, v); put(t, stun::IceControlledAttribute{v}, b); break; }
        case ref::A_CONTROLLING: { uint64_t v = r.chance(1, 6) ? r.skewed64() : r.u64(); Bytes b; ref::put64(b, v); put(t, stun::IceControllingAttribute{v}, b); break; }
        case ref::A_USE: put(t, stun::UseCandidateAttribute{}, {}); break;
        case ref::A_ERROR: {
            unsigned code = (unsigned)r.range(300, 699);
            Bytes b{0, 0, (uint8_t)(code / 100), (uint8_t)(code % 100)};
            Maybe<std::string> phrase = None{};
            if (r.coin()) { auto s = text(); phrase = s; Bytes x = ref::bytes_of(s); b.insert(b.end(), x.begin(), x.end()); }
            put(t, stun::ErrorCodeAttribute{code, phrase}, b);
            break;
        }
        case ref::A_UNKNOWN: {
            stun::UnknownAttributesAttribute a;
            Bytes b;
            unsigned m = (unsigned)r.below(8);
            while (m--) { uint16_t v = (uint16_t)r.u32(); a.types.push_back(stun::AttributeType::from_uint16(v)); ref::put16(b, v); }
            put(t, std::move(a), b);
            break;
        }
        }
    }
    n = (unsigned)r.below(5);
    while (n--) {
        uint16_t t = ref::random_unknown_type(r);
        Bytes b = r.bytes(r.chance(1, 10) ? r.below(700) : r.below(20));
        k.unknown.emplace_back(stun::AttributeType::from_uint16(t), view(b));
        k.want_unknown.emplace_back(t, b);
    }
    if (big) { // one value or several make the message as long as wanted
        size_t parts = 1 + r.below(3);
        for (size_t i = 0; i < parts; ++i) {
            Bytes b(big / parts, (uint8_t)r.u8());
            if (i == 0 && r.coin() && !k.want.count(ref::A_SOFTWARE)) { put(ref::A_SOFTWARE, stun::SoftwareAttribute{std::string(b.begin(), b.end())}, b); continue; }
            uint16_t t = ref::random_unknown_type(r);
            k.unknown.emplace_back(stun::AttributeType::from_uint16(t), view(b));
            k.want_unknown.emplace_back(t, b);
        }
    }
    for (auto& [t, w] : k.want) { k.length += padded(w.size()); }
    for (auto& [t, w] : k.want_unknown) { k.length += padded(w.size()); }
    return k;
}

stun::Message message(const Content& k, bool via_emplace) {
    stun::Header h{stun::Class::from_msg_type(ref::msg_type(k.cls, 0)), stun::Method::from_msg_type(ref::msg_type(0, k.method)), stun::TransactionId(view(k.tid))};
    auto attrs = k.attrs;
    auto unknown = k.unknown;
    stun::AttributeSet set;
    if (via_emplace) {
        for (auto& a : attrs) { set.emplace(stun::Attribute::create(std::move(a))); }
        for (auto& u : unknown) { set.emplace(std::move(u)); }
    } else {
        set = stun::AttributeSet::create(std::move(attrs), std::move(unknown));
    }
    return stun::Message{h, std::move(set), stun::IsRFC3489{k.tid.size() == 16}, none()};
}

// Checks the packet and returns offset of the integrity (0: none).
size_t check_packet(vf::Ctx& c, const Content& k, const Bytes& p, const Bytes* key) {
    auto hx = [&] { return p.size() > 400 ? std::to_string(p.size()) + " bytes" : vf::hex(p); };
    CHECK(p.size() >= 20 && p.size() % 4 == 0, "size", "size of packet " << p.size());
    CHECK(ref::get16(&p[0]) == ref::msg_type(k.cls, k.method), "type", "type of " << hx() << " instead of " << ref::msg_type(k.cls, k.method));
    CHECK(ref::get16(&p[2]) == p.size() - 20, "length", "length field of " << hx());
    Bytes id(p.begin() + (k.tid.size() == 12 ? 8 : 4), p.begin() + 20);
    CHECK(id == k.tid && (k.tid.size() == 16 || ref::get32(&p[4]) == ref::COOKIE), "header", "cookie and transaction id of " << hx());
    std::map<uint16_t, Bytes> got;
    std::vector<std::pair<uint16_t, Bytes>> unknown;
    size_t integrity = 0, fingerprint = 0, off = 20;
    while (off < p.size()) {
        CHECK(off + 4 <= p.size(), "walk", "attribute header does not fit: " << hx());
        uint16_t t = (uint16_t)ref::get16(&p[off]);
        size_t n = ref::get16(&p[off + 2]);
        size_t next = off + 4 + (n + 3) / 4 * 4;
        CHECK(next <= p.size(), "walk", "attribute does not fit: " << hx());
        for (size_t i = off + 4 + n; i < next; ++i) { CHECK(p[i] == 0, "padding", "padding is not zero at " << i << ": " << hx()); }
        CHECK(fingerprint == 0, "fingerprint.last", "attribute after fingerprint: " << hx());
        if (t == ref::A_FINGERPRINT) { fingerprint = off; CHECK(n == 4, "fingerprint.size", n); }
        else {
            CHECK(integrity == 0, "integrity.last", "attribute after integrity: " << hx());
            Bytes v(p.begin() + off + 4, p.begin() + off + 4 + n);
            if (t == ref::A_INTEGRITY) { integrity = off; CHECK(n == 20, "integrity.size", n); }
            else if (ref::is_known(t)) { CHECK(got.emplace(t, v).second, "twice", "attribute " << t << " is there twice: " << hx()); }
            else { unknown.emplace_back(t, v); }
        }
        off = next;
    }
    for (auto& [t, v] : k.want) { CHECK(got.count(t), "missing", "attribute " << t << " is missing: " << hx()); CHECK(got[t] == v, "value", "attribute " << t << " is " << vf::hex(got[t]) << " instead of " << vf::hex(v)); }
    CHECK(got.size() == k.want.size(), "extra", "extra attributes: " << hx());
    CHECK(unknown == k.want_unknown, "unknown", "unknown attributes: " << hx());
    CHECK((fingerprint != 0) == k.fingerprint, "fingerprint", "presence of fingerprint: " << hx());
    CHECK((integrity != 0) == (key != nullptr), "integrity", "presence of integrity: " << hx());
    if (fingerprint) { CHECK(ref::get32(&p[fingerprint + 4]) == (ref::crc32(p.data(), fingerprint) ^ ref::FP_XOR), "fingerprint.value", "fingerprint of " << hx()); }
    if (integrity) {
        Bytes mac(p.begin() + integrity + 4, p.begin() + integrity + 24);
        CHECK(mac == ref::integrity_of(p, integrity, *key), "integrity.value", "integrity of " << hx());
    }
    return integrity;
}

void build_and_check(vf::Ctx& c, const Content& k) {
    bool with_key = c.rng.coin();
    Bytes key = c.rng.bytes(c.rng.below(80));
    size_t total = k.length + (with_key ? 24 : 0) + (k.fingerprint ? 8 : 0);
    stun::Message m = message(k, c.rng.coin());
    auto r = with_key ? m.build(integrity(key)) : m.build();
    bool each_fits = true;
    for (auto& [t, v] : k.want) { each_fits = each_fits && v.size() <= 0xffff; }
    for (auto& [t, v] : k.want_unknown) { each_fits = each_fits && v.size() <= 0xffff; }
    if (total > 0xffff || !each_fits) {
        CHECK(r.is_err(), "oversize", "a message of " << total << " bytes is built");
        EV("refused");
        c.distinct(vf::Hash().add(total).add(k.tid));
        return;
    }
    CHECK(r.is_ok(), "refused", "a message of " << total << " bytes is not built: " << r.unwrap_err().message());
    Bytes p(r.unwrap().begin(), r.unwrap().end());
    CHECK(p.size() == 20 + total, "size", "packet of " << p.size() << " bytes, expected " << 20 + total);
    check_packet(c, k, p, with_key ? &key : nullptr);
    EV("built");
    if (total > 1000) { EV("built large"); }
    // And back.
    vf::Exact x(p);
    stun::ParseStat stat;
    auto back = stun::Message::parse(view(x), stat);
    CHECK(back.is_ok(), "parse", "built packet is rejected: " << back.unwrap_err().message());
    ref::Decoded d = ref::decode(p);
    CHECK(d.ok, "model", d.reason);
    std::string diff = differs(back.unwrap(), d);
    CHECK(diff.empty(), "parse.content", diff);
    EV("parsed back");
    // The parsed message builds into an equivalent packet.
    auto again = with_key ? back.unwrap().build(integrity(key)) : back.unwrap().build();
    CHECK(again.is_ok(), "rebuild", again.unwrap_err().message());
    Bytes q(again.unwrap().begin(), again.unwrap().end());
    check_packet(c, k, q, with_key ? &key : nullptr);
    c.distinct(vf::Hash().add(p));
    c.sample("built " + (p.size() > 200 ? std::to_string(p.size()) + " bytes" : vf::hex(p)));
}
}

GROUP("P07", "build", 20000, 1500000) { build_and_check(c, random_content(c.rng)); }

// Around the largest length.
GROUP("P07", "large", 160, 3000) {
    size_t big = c.idx % 3 == 0 ? 60000 + c.rng.below(80000) : 65536 - c.rng.below(120);
    build_and_check(c, random_content(c.rng, big));
}
// Every length of a value, and every number of listed types and of attributes.
GROUP("P07", "sizes", 1600, 65536) {
    size_t n = c.idx;
    for (unsigned kind = 0; kind < 5; ++kind) {
        Content k;
        k.tid = ref::random_tid(c.rng);
        auto unknown = [&](const Bytes& v) {
            uint16_t t = ref::random_unknown_type(c.rng);
            k.unknown.emplace_back(stun::AttributeType::from_uint16(t), view(v));
            k.want_unknown.emplace_back(t, v);
        };
        Bytes b = c.rng.bytes(n);
        std::string s(b.begin(), b.end());
        switch (kind) {
        case 0: unknown(b); break;
        case 1:
            if (c.rng.coin()) { k.attrs.push_back(stun::SoftwareAttribute{s}); k.want[ref::A_SOFTWARE] = b; }
            else { k.attrs.push_back(stun::UsernameAttribute{precis::OpaqueString{s}}); k.want[ref::A_USERNAME] = b; }
            break;
        case 2: {
            if (n > 1600) { continue; }
            stun::UnknownAttributesAttribute a;
            Bytes v;
            for (size_t i = 0; i < n; ++i) { uint16_t x = (uint16_t)c.rng.u32(); a.types.push_back(stun::AttributeType::from_uint16(x)); ref::put16(v, x); }
            k.attrs.push_back(std::move(a));
            k.want[ref::A_UNKNOWN] = v;
            break;
        }
        case 3: {
            unsigned code = 300 + (unsigned)n % 400;
            Bytes v{0, 0, (uint8_t)(code / 100), (uint8_t)(code % 100)};
            v.insert(v.end(), b.begin(), b.end());
            k.attrs.push_back(stun::ErrorCodeAttribute{code, Maybe<std::string>{s}});
            k.want[ref::A_ERROR] = v;
            break;
        }
        default:
            if (n > 400) { continue; }
            for (size_t i = 0; i < n; ++i) { unknown(c.rng.bytes(c.rng.below(6))); }
        }
        for (auto& [t, w] : k.want) { k.length += padded(w.size()); }
        for (auto& [t, w] : k.want_unknown) { k.length += padded(w.size()); }
        k.fingerprint = c.rng.coin();
        if (k.fingerprint) { k.attrs.push_back(stun::FingerprintAttribute{0}); }
        build_and_check(c, k);
        EV("sizes enumerated");
    }
}
GROUP("P07", "limit", 140, 140) { // exact lengths around the limit, one attribute
    size_t n = 65480 + c.idx;
    Content k;
    k.tid = ref::random_tid(c.rng);
    Bytes b(n, 'x');
    uint16_t t = ref::random_unknown_type(c.rng);
    k.unknown.emplace_back(stun::AttributeType::from_uint16(t), view(b));
    k.want_unknown.emplace_back(t, b);
    k.length = padded(n);
    k.fingerprint = c.idx & 1;
    if (k.fingerprint) { k.attrs.push_back(stun::FingerprintAttribute{0}); }
    build_and_check(c, k);
    EV("lengths around the limit");
}

// ---------------------------------------------------------------- P08
namespace {

crypto::SHA1Hash::Func failing(unsigned after) {
    auto n = std::make_shared<unsigned>(after);
    return [n](const crypto::SHA1Hash::Input& i) -> crypto::SHA1Hash::Result {
        if (*n == 0) { return std::make_error_code(std::errc::io_error); }
        --*n;
        return crypto::openssl::sha1(i);
    };
}

// is_valid against the model.
void check_valid(vf::Ctx& c, const Bytes& p, const Bytes& key) {
    ref::Decoded d = ref::decode(p);
    vf::Exact x(p, c.rng.below(4));
    stun::ParseStat stat;
    auto r = stun::Message::parse(view(x), stat);
    if (r.is_err()) { return; }
    auto v = r.unwrap().is_valid(view(x), integrity(key));
    CHECK(v.is_ok(), "valid.error", v.unwrap_err().message());
    CHECK(v.unwrap().is_some() == (d.integrity_off != 0), "signed", "message is reported " << (v.unwrap().is_some() ? "signed" : "not signed") << ": " << vf::hex(p));
    if (d.integrity_off == 0) { EV("not signed"); return; }
    bool want = d.signed_by(p, key);
    CHECK(v.unwrap().unwrap() == want, "valid", "validation says " << v.unwrap().unwrap() << " instead of " << want << ", key " << vf::hex(key) << ": " << vf::hex(p));
    if (want) { EV("valid"); } else { EV("not valid"); }
    c.distinct(vf::Hash().add(p).add(key));
}

Bytes near_key(Rng& r, Bytes k) {
    switch (r.below(6)) {
    case 0: if (!k.empty()) { k[r.below(k.size())] ^= (uint8_t)(1u << r.below(8)); } else { k.push_back(1); } return k;
    case 1: k.push_back((uint8_t)r.range(1, 255)); return k; // (a zero would be the same HMAC key)
    case 2: if (!k.empty()) { k.pop_back(); } return k;
    case 3: return {};
    case 4: std::reverse(k.begin(), k.end()); return k;
    default: return r.bytes(r.below(80));
    }
}
}

GROUP("P08", "sign and verify", 8000, 600000) {
    Content k = random_content(c.rng);
    Bytes key = c.rng.bytes(c.rng.chance(1, 3) ? c.rng.one_of<size_t>({0, 1, 19, 20, 21, 62, 63, 64, 65, 66, 127, 128, 129, 200}) : c.rng.below(70));
    stun::Message m = message(k, false);
    auto r = m.build(integrity(key));
    CHECK(r.is_ok(), "build", r.unwrap_err().message());
    Bytes p(r.unwrap().begin(), r.unwrap().end());
    ref::Decoded d = ref::decode(p);
    CHECK(d.ok && d.integrity_off != 0, "build", "built message: " << d.reason);
    CHECK(d.signed_by(p, key), "hmac", "digest of the built message is not the HMAC, key " << vf::hex(key) << ": " << vf::hex(p));
    EV("signed");
    if (key.size() > 64) { EV("keys longer than a block"); }
    check_valid(c, p, key);
    check_valid(c, p, near_key(c.rng, key));
    // Any change of a protected byte or of the digest (the fingerprint is made right again).
    size_t end = d.integrity_off + 24;
    for (unsigned i = 0; i < 4; ++i) {
        Bytes q = p;
        size_t at = i == 0 ? d.integrity_off + 4 + c.rng.below(20) : c.rng.below(end);
        q[at] ^= (uint8_t)(1u << c.rng.below(8));
        ref::refresh_fingerprint(q);
        check_valid(c, q, key);
        if (ref::decode(q).ok) { EV("changed"); }
    }
    // Fingerprint added behind, or taken away: still valid.
    {
        Bytes q(p.begin(), p.begin() + end);
        ref::Enc e(0, Bytes(12));
        if (c.rng.coin()) {
            Bytes ig = c.rng.bytes(4 * c.rng.below(4));
            ref::put16(q, 0x8022); ref::put16(q, (uint32_t)ig.size());
            q.insert(q.end(), ig.begin(), ig.end()); // ignored attribute
        }
        size_t n = q.size() - 20 + 8;
        q[2] = (uint8_t)(n >> 8); q[3] = (uint8_t)n;
        uint32_t crc = ref::crc32(q) ^ ref::FP_XOR;
        ref::put16(q, ref::A_FINGERPRINT); ref::put16(q, 4); ref::put32(q, crc);
        CHECK(ref::decode(q).ok, "model", ref::decode(q).reason);
        check_valid(c, q, key);
        EV("fingerprint follows");
    }
    c.sample("key " + vf::hex(key) + " packet " + (p.size() > 200 ? std::to_string(p.size()) + " bytes" : vf::hex(p)));
}

// Messages of others: forged, with several integrities, unsigned.
// Every length of the protected part and of the key.
GROUP("P08", "sizes", 1500, 16000) {
    Bytes key = c.rng.bytes(c.idx % 300);
    ref::Enc e(ref::msg_type((unsigned)c.rng.below(4), 1), ref::random_tid(c.rng));
    e.attr(c.rng.coin() ? (uint16_t)ref::A_SOFTWARE : ref::random_unknown_type(c.rng), c.rng.bytes(c.idx));
    e.integrity(key);
    if (c.rng.coin()) { e.fingerprint(); }
    Bytes p = e.bytes();
    CHECK(ref::decode(p).ok && ref::decode(p).signed_by(p, key), "model", ref::decode(p).reason);
    check_valid(c, p, key);
    check_valid(c, p, near_key(c.rng, key));
    size_t end = ref::decode(p).integrity_off;
    for (size_t at : {c.rng.below(end), end - 1, end - 1 - c.rng.below(std::min<size_t>(end, 70))}) {
        Bytes q = p;
        q[at] ^= (uint8_t)(1u << c.rng.below(8));
        ref::refresh_fingerprint(q);
        check_valid(c, q, key);
    }
    EV("sizes enumerated");
}
// Protected parts up to the longest that fits.
GROUP("P08", "large", 240, 4800) {
    Bytes key = c.rng.bytes(c.rng.below(80));
    ref::Enc e(ref::msg_type((unsigned)c.rng.below(4), 1), ref::random_tid(c.rng));
    size_t want = c.rng.chance(1, 4) ? 65400 : c.rng.coin() ? (size_t)c.rng.range(1500, 65400) : (size_t)(c.rng.range(1, 7) * 8192 + c.rng.range(0, 60) - 30);
    size_t n = 0; // bytes of attributes so far
    while (n + 4 < want) {
        size_t k = std::min<size_t>(want - n - 4, c.rng.coin() ? 60000 : c.rng.below(9000));
        e.attr(ref::random_unknown_type(c.rng), c.rng.bytes(k));
        n += 4 + (k + 3) / 4 * 4;
    }
    e.integrity(key);
    if (c.rng.coin()) { e.fingerprint(); }
    Bytes p = e.bytes();
    auto d = ref::decode(p);
    CHECK(d.ok && d.signed_by(p, key), "model", d.reason);
    check_valid(c, p, key);
    check_valid(c, p, near_key(c.rng, key));
    for (int k = 0; k < 3; ++k) {
        Bytes q = p;
        q[c.rng.coin() ? c.rng.below(d.integrity_off) : d.integrity_off - 1 - c.rng.below(1000)] ^= (uint8_t)(1u << c.rng.below(8));
        ref::refresh_fingerprint(q);
        check_valid(c, q, key);
    }
    if (d.integrity_off > 16384) { EV("signed beyond 16384 bytes"); }
}
GROUP("P08", "foreign", 12000, 600000) {
    ref::Sample s = ref::random_message(c.rng);
    Bytes p = s.packet;
    if (c.rng.chance(1, 3)) { ref::mutate(c.rng, p); ref::refresh_fingerprint(p); }
    check_valid(c, p, s.key);
    check_valid(c, p, near_key(c.rng, s.key));
}

// Digests that agree with the right one in much: in a prefix, behind a zero, in the sum of bytes, ...
GROUP("P08", "near digests", 160, 8000) {
    Bytes key = c.rng.bytes(c.rng.below(40)), tid, base, mac;
    uint16_t type = ref::msg_type((unsigned)c.rng.below(4), 1);
    Bytes a = c.rng.bytes(c.rng.below(20));
    size_t zero = c.rng.below(22); // position of a zero byte in the digest, if any
    for (unsigned k = 0; k < 3000; ++k) {
        tid = ref::random_tid(c.rng);
        ref::Enc e(type, tid);
        e.attr(ref::A_SOFTWARE, a);
        e.integrity(key);
        base = e.bytes();
        mac.assign(base.end() - 20, base.end());
        if (zero >= 20 || mac[zero] == 0) { break; }
    }
    if (zero < 20 && mac[zero] == 0) { EV("digests with a zero byte"); }
    bool fp = c.rng.coin();
    auto judge_mac = [&](const Bytes& m) {
        ref::Enc e(type, tid);
        e.attr(ref::A_SOFTWARE, a);
        e.attr(ref::A_INTEGRITY, m);
        if (fp) { e.fingerprint(); }
        check_valid(c, e.bytes(), key);
        EV("digests near the right one");
    };
    judge_mac(mac);
    for (size_t k = 0; k < 20; ++k) {
        Bytes m = mac; // right up to the byte k
        for (size_t j = k; j < 20; ++j) { m[j] = c.rng.u8(); }
        judge_mac(m);
        m = mac; // right from the byte k on
        for (size_t j = 0; j < k; ++j) { m[j] = c.rng.u8(); }
        judge_mac(m);
        m = mac; m[k] ^= (uint8_t)(1u << c.rng.below(8)); judge_mac(m);
        m = mac; m[k] = (uint8_t)~m[k]; judge_mac(m);
        m = mac; size_t j = c.rng.below(20); std::swap(m[k], m[j]); judge_mac(m);
        m = mac; j = (k + 1 + c.rng.below(19)) % 20; uint8_t bit = (uint8_t)(1u << c.rng.below(8)); m[k] ^= bit; m[j] ^= bit; judge_mac(m); // same XOR
        m = mac; m[k] = (uint8_t)(m[k] + 1); m[j] = (uint8_t)(m[j] - 1); judge_mac(m); // same sum
    }
    for (unsigned k = 0; k < 20; ++k) { // nothing but zeros behind the byte k, also all of them
        Bytes m = mac;
        std::fill(m.begin() + k, m.end(), 0);
        judge_mac(m);
    }
    Bytes m = mac; std::reverse(m.begin(), m.end()); judge_mac(m);
    m = mac; for (size_t k = 0; k < 20; k += 4) { std::reverse(m.begin() + k, m.begin() + k + 4); } judge_mac(m);
    m = mac; std::rotate(m.begin(), m.begin() + 4, m.end()); judge_mac(m);
    m = mac; for (auto& x : m) { x ^= 0x20; } judge_mac(m);
    judge_mac(Bytes(20, 0xff));
}

// Integrity moved from another place, or over data of other length.
GROUP("P08", "forged", 4000, 200000) {
    Bytes key = c.rng.bytes(c.rng.below(40));
    Bytes tid = ref::random_tid(c.rng);
    uint16_t type = ref::msg_type((unsigned)c.rng.below(4), 1);
    ref::Enc e(type, tid);
    Bytes a = c.rng.bytes(4 + c.rng.below(12)), b = c.rng.bytes(4 + c.rng.below(12));
    e.attr(ref::A_SOFTWARE, a);
    ref::Enc full = e; // the HMAC is computed in wrong ways
    Bytes base = e.bytes();
    Bytes mac;
    switch (c.rng.below(5)) {
    case 0: mac = ref::hmac_sha1(key, base); break;                                  // length field not adjusted
    case 1: { Bytes x = base; size_t n = x.size() - 20 + 32; x[2] = (uint8_t)(n >> 8); x[3] = (uint8_t)n; mac = ref::hmac_sha1(key, x); break; } // length with fingerprint
    case 2: mac = ref::hmac_sha1(key, Bytes(base.begin() + 4, base.end())); break;   // without the first word
    case 3: mac = ref::hmac_sha1(key, Bytes(base.begin(), base.end() - 1)); break;   // last byte unprotected
    default: { Bytes x = base; while (x.size() % 64) { x.push_back(0); } mac = ref::hmac_sha1(key, x); break; } // RFC 3489 padding
    }
    full.attr(ref::A_INTEGRITY, mac);
    if (c.rng.coin()) { full.fingerprint(); }
    check_valid(c, full.bytes(), key);
    // Two integrities: the first one counts.
    ref::Enc two(type, tid);
    two.attr(ref::A_SOFTWARE, a);
    bool first_right = c.rng.coin();
    if (first_right) { two.integrity(key); } else { two.attr(ref::A_INTEGRITY, c.rng.bytes(20)); }
    two.attr(ref::A_USERNAME, b);
    two.integrity(key);
    if (c.rng.coin()) { two.fingerprint(); }
    check_valid(c, two.bytes(), key);
    EV("two integrities");
}

// A failing hash function: an error, never a verdict.
GROUP("P08", "hash failure", 400, 20000) {
    Bytes key = c.rng.bytes(c.rng.below(100));
    Content k = random_content(c.rng);
    stun::Message m = message(k, true);
    unsigned after = (unsigned)c.rng.below(2);
    auto r = m.build(stun::IntegrityData{password(key), failing(after)});
    CHECK(r.is_err() && r.unwrap_err() == std::make_error_code(std::errc::io_error), "build.failure", "hash function failed, the message was built");
    auto ok = m.build(integrity(key));
    CHECK(ok.is_ok(), "build", "");
    Bytes p(ok.unwrap().begin(), ok.unwrap().end());
    stun::ParseStat stat;
    vf::Exact x(p);
    auto parsed = stun::Message::parse(view(x), stat);
    CHECK(parsed.is_ok(), "parse", "");
    auto v = parsed.unwrap().is_valid(view(x), stun::IntegrityData{password(key), failing(after)});
    CHECK(v.is_err(), "valid.failure", "hash function failed, the message was judged");
    if (key.size() > 64) {
        auto pw = stun::Password::short_term(precis::OpaqueString{std::string(key.begin(), key.end())}, failing(0));
        CHECK(pw.is_err(), "password.failure", "hash function failed, the key was made");
    }
    EV("failures of hash");
    c.distinct(vf::Hash().add(p));
}

// ---------------------------------------------------------------- P10
GROUP("P10", "crc", 6000, 400000) {
    Bytes b = c.rng.bytes(c.idx < 2200 ? c.idx : c.rng.chance(1, 20) ? c.rng.below(4000) : c.rng.below(90));
    if (c.rng.chance(1, 6)) { std::fill(b.begin(), b.end(), c.rng.coin() ? 0 : 0xff); }
    vf::Exact x(b, c.rng.below(8));
    uint32_t want = ref::crc32(b);
    CHECK(stun::crc32(view(x)) == want, "crc", "CRC of " << vf::hex(b));
    std::vector<View> parts;
    size_t at = 0;
    while (at < b.size()) { size_t n = std::min<size_t>(c.rng.below(12), b.size() - at); parts.push_back(View(x.data() + at, n)); at += n; }
    if (c.rng.coin()) { parts.push_back(View(x.data(), 0)); }
    CHECK(stun::crc32(parts) == want, "crc.parts", "CRC of " << vf::hex(b) << " in " << parts.size() << " parts");
    EV("crc values");
    c.distinct(vf::Hash().add(b));
}
// Long inputs and many parts.
GROUP("P10", "large", 36, 720) {
    static const size_t K[] = {255, 256, 4096, 32767, 32768, 32769, 65507, 65535, 65536, 65537, 131073, 1000000};
    size_t n = K[c.idx % 12] + (c.idx < 12 ? 0 : c.rng.below(40));
    Bytes b = c.rng.bytes(n);
    uint32_t want = ref::crc32(b);
    vf::Exact x(b, c.rng.below(8));
    CHECK(stun::crc32(view(x)) == want, "crc", "CRC of " << n << " bytes");
    std::vector<View> parts;
    for (size_t i = 0; i < n; ++i) { parts.push_back(View(x.data() + i, 1)); }
    CHECK(stun::crc32(parts) == want, "crc.parts", "CRC of " << n << " parts of a byte");
    parts.assign({View(x.data(), n / 3), View(x.data() + n / 3, 0), View(x.data() + n / 3, n - n / 3)});
    CHECK(stun::crc32(parts) == want, "crc.parts", "CRC of " << n << " bytes in three parts");
    EV("crc values");
    EV("long inputs");
    c.distinct(vf::Hash().add(b));
}
GROUP("P10", "single bytes", 1, 1) {
    for (unsigned v = 0; v < 256; ++v) { // all entries of any table
        Bytes b{(uint8_t)v};
        CHECK(stun::crc32(view(b)) == ref::crc32(b), "crc", "CRC of byte " << v);
        c.distinct(v);
    }
    EVN("crc values", 256);
}

// Messages whose CRC is any value, zero included.
GROUP("P10", "chosen values", 1200, 60000) {
    static const uint32_t K[] = {0, 1, 0xff, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffff00, 0xffffffff, 0x80280004, 0x2112a442};
    uint32_t value = K[c.idx % std::size(K)];
    uint32_t crc = c.idx / std::size(K) % 2 ? value : value ^ ref::FP_XOR; // CRC or the fingerprint is the value
    Content k = random_content(c.rng);
    if (!k.fingerprint) { k.attrs.push_back(stun::FingerprintAttribute{c.rng.u32()}); k.fingerprint = true; }
    auto build = [&] {
        stun::Message m = message(k, false);
        auto r = m.build();
        CHECK(r.is_ok(), "build", "");
        return Bytes(r.unwrap().begin(), r.unwrap().end());
    };
    Bytes p = build();
    size_t at = p.size() - 8;
    ref::force_crc(p, 8, at, crc);
    CHECK(ref::crc32(p.data(), at) == crc, "harness", "CRC is not the one wanted");
    k.tid.assign(p.begin() + (k.tid.size() == 12 ? 8 : 4), p.begin() + 20);
    Bytes q = build();
    CHECK(ref::crc32(q.data(), at) == crc && ref::get32(&q[at + 4]) == (crc ^ ref::FP_XOR), "fingerprint", "fingerprint of message with CRC " << crc << ": " << vf::hex(q));
    auto fingerprinted = [&](const Bytes& b) {
        stun::ParseStat stat;
        vf::Exact x(b);
        auto r = stun::Message::parse(view(x), stat);
        return r.is_ok() && r.unwrap().attribute_set.has_fingerprint();
    };
    CHECK(fingerprinted(q), "accept", "message with CRC " << crc << " is rejected: " << vf::hex(q));
    for (uint32_t other : {crc ^ ref::FP_XOR ^ 1u << c.rng.below(32), 0u, 0xffffffffu, crc, ~crc, ref::FP_XOR, c.rng.u32()}) {
        if (other == (crc ^ ref::FP_XOR)) { continue; }
        for (int i = 0; i < 4; ++i) { q[at + 4 + (size_t)i] = (uint8_t)(other >> (24 - 8 * i)); }
        CHECK(!fingerprinted(q), "corrupted", "message with CRC " << crc << " and fingerprint " << other << " is accepted: " << vf::hex(q));
        EV("other fingerprints rejected");
    }
    EV("chosen values of CRC");
    c.distinct(vf::Hash().add(p));
}

// Corruption of a fingerprinted packet within 32 bits.
GROUP("P10", "corruption", 3000, 200000) {
    Content k = random_content(c.rng);
    if (!k.fingerprint) { k.attrs.push_back(stun::FingerprintAttribute{0}); k.fingerprint = true; }
    stun::Message m = message(k, false);
    auto r = c.rng.coin() ? m.build(integrity(c.rng.bytes(10))) : m.build();
    CHECK(r.is_ok(), "build", "");
    Bytes p(r.unwrap().begin(), r.unwrap().end());
    CHECK(ref::get16(&p[p.size() - 8]) == ref::A_FINGERPRINT && ref::get32(&p[p.size() - 4]) == (ref::crc32(p.data(), p.size() - 8) ^ ref::FP_XOR), "fingerprint", "fingerprint of " << vf::hex(p));
    {
        stun::ParseStat stat;
        vf::Exact x(p);
        auto ok = stun::Message::parse(view(x), stat);
        CHECK(ok.is_ok() && ok.unwrap().attribute_set.has_fingerprint(), "accept", "packet is rejected: " << vf::hex(p));
    }
    EV("fingerprinted packets");
    unsigned rounds = c.thorough ? 60 : 24;
    for (unsigned i = 0; i < rounds; ++i) {
        Bytes q = p;
        size_t bit = c.rng.below(p.size() * 8);
        uint32_t pattern = c.rng.chance(1, 3) ? 1 : c.rng.u32();
        if (c.rng.chance(1, 4)) { bit = (p.size() - 8) * 8 + c.rng.below(64); } // the fingerprint itself
        bool changed = false;
        for (unsigned j = 0; j < 32 && bit + j < p.size() * 8; ++j) {
            if (pattern >> j & 1) { q[(bit + j) / 8] ^= (uint8_t)(0x80 >> (bit + j) % 8); changed = true; }
        }
        if (!changed) { continue; }
        stun::ParseStat stat;
        vf::Exact x(q);
        auto res = stun::Message::parse(view(x), stat);
        if (res.is_ok()) {
            CHECK(!res.unwrap().attribute_set.has_fingerprint(), "corrupted", "corrupted packet is accepted: " << vf::hex(p) << " -> " << vf::hex(q));
            EV("fingerprint destroyed");
        } else { EV("corruptions rejected"); }
        c.distinct(vf::Hash().add(q));
    }
    c.sample("fingerprinted " + (p.size() > 200 ? std::to_string(p.size()) + " bytes" : vf::hex(p)));
}
// Every single bit of a packet.
GROUP("P10", "every bit", 40, 2000) {
    Bytes p;
    { ref::Enc e(ref::msg_type((unsigned)c.rng.below(4), 1), ref::random_tid(c.rng)); e.attr(ref::A_SOFTWARE, c.rng.bytes(c.rng.below(20))); e.attr(ref::A_XOR, ref::random_value(c.rng, ref::A_XOR, {})); e.fingerprint(); p = e.bytes(); }
    for (size_t bit = 0; bit < p.size() * 8; ++bit) {
        Bytes q = p;
        q[bit / 8] ^= (uint8_t)(0x80 >> bit % 8);
        stun::ParseStat stat;
        vf::Exact x(q);
        auto res = stun::Message::parse(view(x), stat);
        CHECK(res.is_err() || !res.unwrap().attribute_set.has_fingerprint(), "corrupted", "packet with bit " << bit << " changed is accepted: " << vf::hex(q));
        EV("bits flipped");
    }
    // Attributes after the fingerprint.
    ref::Enc e(ref::msg_type(0, 1), ref::random_tid(c.rng));
    e.fingerprint();
    e.attr(ref::A_SOFTWARE, c.rng.bytes(c.rng.below(9)));
    Bytes q = e.bytes();
    stun::ParseStat stat;
    CHECK(stun::Message::parse(view(q), stat).is_err(), "last", "fingerprint is not the last attribute, the packet is accepted");
    c.distinct(vf::Hash().add(p));
}
