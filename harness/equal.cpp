// P46: two values are equal exactly if they denote the same.
#include "workout.hpp"

namespace {

using namespace cl;
namespace ic = freewebrtc::ice::candidate;

// Two values given by what they denote. Each is made several times, in memory that
// held something else, copied, moved, assigned over the other.
template<typename T, typename Make>
void pair(vf::Ctx& c, const char* what, const Bytes& x, const Bytes& y, bool same, Make make) {
    auto said = [&] { return std::string(what) + " " + vf::hex(x).substr(0, 120) + " and " + vf::hex(y).substr(0, 120); };
    auto in = [&](uint8_t before, const Bytes& of) {
        void* p = ::operator new(sizeof(T), std::align_val_t(alignof(T)));
        std::memset(p, before, sizeof(T));
        asm volatile("" : "+r"(p) : : "memory");
        return new (p) T(make(of));
    };
    auto end = [](T* t) { t->~T(); ::operator delete((void*)t, std::align_val_t(alignof(T))); };
    struct Held { T* t; decltype(end)& e; ~Held() { e(t); } };
    Held a{in(0x00, x), end}, a2{in(0xff, x), end}, b{in(0x5a, y), end};
    auto equal = [&](const T& p, const T& q, bool want, const char* how) {
        CHECK((p == q) == want && (q == p) == want, "equal", said() << " (" << how << ") are" << (want ? " not" : "") << " equal");
        CHECK((p != q) == !want && (q != p) == !want, "unequal", said() << " (" << how << "): == and != do not agree");
        EVN("comparisons", 4);
    };
    equal(*a.t, *a.t, true, "itself");
    equal(*a.t, *a2.t, true, "made twice");
    equal(*a.t, *b.t, same, "two values");
    equal(*a2.t, *b.t, same, "two values");
    {
        T k(*a.t);
        equal(k, *a.t, true, "a copy");
        equal(k, *b.t, same, "a copy");
        k = *b.t; // over the other one
        equal(k, *b.t, true, "assigned");
        equal(k, *a.t, same, "assigned");
        T m(std::move(k));
        equal(m, *b.t, true, "moved");
        equal(m, *a.t, same, "moved");
        k = *a.t;
        equal(k, *a.t, true, "assigned to what was moved from");
        std::vector<T> many{*b.t, m, *b.t};
        CHECK((std::find(many.begin(), many.end(), *a.t) != many.end()) == same, "find", said() << ": found among the other");
        many.push_back(*a.t);
        CHECK(std::find(many.begin(), many.end(), *a.t) == (same ? many.begin() : many.begin() + 3), "find", said());
    }
    if (same) { EV("equal pairs"); } else { EV("different pairs"); }
    vf::ev(std::string("type: ") + what);
    c.distinct(vf::Hash().add(std::string(what)).add(x).add(y));
    if (c.wants_sample()) { c.sample(said() + (same ? ": equal" : ": not equal")); }
}

// Near a value: the same, one bit or byte changed at any place, two bytes exchanged,
// shorter or longer (with zeros too), the halves exchanged.
Bytes near(Rng& r, const Bytes& x, bool resize) {
    Bytes y = x;
    switch (r.below(resize ? 9 : 5)) {
    case 0: break;
    case 1: if (!y.empty()) { y[r.below(y.size())] ^= (uint8_t)(1u << r.below(8)); } break;
    case 2: if (!y.empty()) { y[r.below(y.size())] = (uint8_t)r.u32(); } break;
    case 3: if (y.size() > 1) { std::swap(y[r.below(y.size())], y[r.below(y.size())]); } break;
    case 4: if (!y.empty()) { (r.coin() ? y.back() : y.front()) ^= (uint8_t)(1u << r.below(8)); } break;
    case 5: if (!y.empty()) { y.pop_back(); } break;
    case 6: y.push_back(r.coin() ? 0 : (uint8_t)r.u32()); break;
    case 7: y.insert(y.begin(), r.coin() ? 0 : (uint8_t)r.u32()); break;
    default: y.resize(r.below(y.size() + 1)); break;
    }
    return y;
}
template<typename T, typename Make>
void bytes_of_size(vf::Ctx& c, const char* what, size_t n, bool resize, Make make) {
    Bytes x = c.rng.bytes(n);
    if (c.rng.chance(1, 6)) { std::fill(x.begin(), x.end(), c.rng.coin() ? 0 : 0xff); }
    Bytes y = c.rng.chance(1, 8) ? c.rng.bytes(n) : near(c.rng, x, resize);
    pair<T>(c, what, x, y, x == y, make);
}
std::string str(const Bytes& b) { return std::string(b.begin(), b.end()); }
uint32_t low(const Bytes& b) { uint32_t v = 0; for (auto x : b) { v = v << 8 | x; } return v; }
Bytes zero_padded_key(const Bytes& k) { // what a key denotes to HMAC
    Bytes v = k;
    if (v.size() > 64) {
        crypto::SHA1Hash h = crypto::openssl::sha1({view(k)}).unwrap();
        v.assign(h.value().begin(), h.value().end());
    }
    v.resize(64);
    return v;
}
net::ip::Address ip_of(const Bytes& b) { return address(b); }
// Bytes of an address of the other family made from the same bytes.
Bytes other_family(vf::Rng& r, const Bytes& x) {
    Bytes y = x;
    if (x.size() == 4) {
        switch (r.below(4)) {
        case 0: y.resize(16); break; // 1.2.3.4 and 102:304::
        case 1: { Bytes t = r.bytes(12); y.insert(y.end(), t.begin(), t.end()); break; }
        case 2: y = Bytes(12, 0); y.insert(y.end(), x.begin(), x.end()); break; // ::1.2.3.4
        default: y = Bytes(10, 0); y.push_back(0xff); y.push_back(0xff); y.insert(y.end(), x.begin(), x.end()); break; // ::ffff:1.2.3.4
        }
    } else { y.resize(4); if (r.chance(1, 3)) { std::copy(x.end() - 4, x.end(), y.begin()); } }
    return y;
}
// Bytes of an address: 4 or 16 of them; the other family sometimes with the same bytes.
void addresses(vf::Ctx& c, auto run) {
    auto& r = c.rng;
    Bytes x = r.chance(1, 4) ? r.bytes(r.coin() ? 4 : 16) : ref::random_addr(r).ip, y = near(r, x, false);
    if (r.chance(1, 6)) { y = other_family(r, x); }
    run(x, y);
}

}

GROUP("P46", "bytes", 16 * 5000, 16 * 150000) {
    auto& r = c.rng;
    switch (c.idx % 16) {
    case 0: bytes_of_size<stun::TransactionId>(c, "transaction id", r.coin() ? 12 : 16, true, [](const Bytes& b) { return stun::TransactionId(view(b)); }); break;
    case 1: bytes_of_size<crypto::SHA1Hash>(c, "SHA-1", 20, false, [](const Bytes& b) { return crypto::SHA1Hash::from_view(view(b)).unwrap(); }); break;
    case 2: bytes_of_size<crypto::SHA256Hash>(c, "SHA-256", 32, false, [](const Bytes& b) { crypto::SHA256Hash::Value v; std::copy(b.begin(), b.end(), v.begin()); return crypto::SHA256Hash::move_from(std::move(v)); }); break;
    case 3: bytes_of_size<crypto::MD5Hash>(c, "MD5", 16, false, [](const Bytes& b) { return crypto::MD5Hash::from_view(view(b)).unwrap(); }); break;
    case 4: bytes_of_size<precis::OpaqueString>(c, "opaque string", r.below(50), true, [](const Bytes& b) { return precis::OpaqueString{str(b)}; }); break;
    case 5: { // keys: equal if the padded keys are
        size_t n = r.chance(1, 3) ? (size_t)r.range(60, 70) : (size_t)r.below(100);
        Bytes x = r.bytes(n), y = near(r, x, true);
        if (n > 64 && r.chance(1, 4)) { y = zero_padded_key(x); y.resize(20); }
        bool same = zero_padded_key(x) == zero_padded_key(y);
        pair<stun::Password>(c, "password", x, y, same, [](const Bytes& b) { return password(b); });
        pair<crypto::hmac::IPadKey>(c, "inner key", x, y, same, [](const Bytes& b) { return crypto::hmac::IPadKey::from_key(view(b), crypto::SHA1Hash::Func(crypto::openssl::sha1)).unwrap(); });
        pair<crypto::hmac::OPadKey>(c, "outer key", x, y, same, [](const Bytes& b) { return crypto::hmac::OPadKey::from_key(view(b), crypto::SHA1Hash::Func(crypto::openssl::sha1)).unwrap(); });
        break;
    }
    case 6: addresses(c, [&](const Bytes& x, const Bytes& y) {
        pair<net::ip::Address>(c, "address", x, y, x == y, ip_of);
        if (x.size() == y.size() && x.size() == 4) { pair<net::ip::AddressV4>(c, "IPv4 address", x, y, x == y, [](const Bytes& b) { return net::ip::AddressV4::from_view(view(b)).unwrap(); }); }
        if (x.size() == y.size() && x.size() == 16) { pair<net::ip::AddressV6>(c, "IPv6 address", x, y, x == y, [](const Bytes& b) { return net::ip::AddressV6::from_view(view(b)).unwrap(); }); }
    }); break;
    case 7: { // both ends, in their order
        Bytes s = ref::random_addr(r).ip, t = r.chance(1, 4) ? s : ref::random_addr(r).ip;
        Bytes s2 = s, t2 = t;
        switch (r.below(7)) { case 5: s2 = other_family(r, s); break; case 6: t2 = other_family(r, t); break; case 0: s2 = near(r, s, false); break; case 1: t2 = near(r, t, false); break; case 2: std::swap(s2, t2); break; case 3: s2 = near(r, s, false); t2 = near(r, t, false); break; default: break; }
        auto pack = [](const Bytes& p, const Bytes& q) { Bytes o{(uint8_t)p.size()}; o.insert(o.end(), p.begin(), p.end()); o.insert(o.end(), q.begin(), q.end()); return o; };
        pair<net::Path>(c, "path", pack(s, t), pack(s2, t2), s == s2 && t == t2, [](const Bytes& o) {
            Bytes p(o.begin() + 1, o.begin() + 1 + o[0]), q(o.begin() + 1 + o[0], o.end());
            return net::Path{address(p), address(q)}; });
        break;
    }
    case 8: { // as parsed: the bytes on the wire
        Bytes x = r.bytes(r.coin() ? 4 : 16), y = r.chance(1, 4) ? other_family(r, x) : near(r, x, false);
        auto make = [](const Bytes& b) { return stun::XoredAddress::from_view(b.size() == 4 ? stun::Family::ipv4() : stun::Family::ipv6(), view(b)).unwrap(); };
        pair<stun::XoredAddress>(c, "xored address", x, y, x == y, make);
        // and as computed from an address
        Bytes tid = r.bytes(12), ip = ref::xored(ref::Addr{x, 0}, tid).ip;
        CHECK(stun::XoredAddress::from_address(address(ip), stun::TransactionId(view(tid))) == make(x), "equal", "xored address computed and read: " << vf::hex(x));
        CHECK((stun::XoredAddress::from_address(address(ip), stun::TransactionId(view(tid))) == make(y)) == (x == y), "equal", "xored address computed and read: " << vf::hex(x) << " " << vf::hex(y));
        break;
    }
    case 9: { // address and port
        Bytes x = r.bytes((r.coin() ? 4 : 16) + 2), y = near(r, x, false);
        if (r.chance(1, 4)) { // the other family, the same port
            Bytes a(x.begin(), x.end() - 2);
            y = other_family(r, a);
            y.insert(y.end(), x.end() - 2, x.end());
        }
        pair<stun::XorMappedAddressAttribute>(c, "xor-mapped address", x, y, x == y, [](const Bytes& b) {
            Bytes a(b.begin(), b.end() - 2);
            return stun::XorMappedAddressAttribute{stun::XoredAddress::from_view(a.size() == 4 ? stun::Family::ipv4() : stun::Family::ipv6(), view(a)).unwrap(), net::Port((uint16_t)ref::get16(&b[b.size() - 2]))}; });
        break;
    }
    case 10: { // the code says it, the phrase is for people
        unsigned x = (unsigned)r.range(300, 699), y = r.chance(1, 3) ? x : r.coin() ? x + (unsigned)r.one_of<int>({-100, 100, -1, 1}) : (unsigned)r.range(300, 699);
        auto raw = [&](unsigned v) { Bytes b; ref::put16(b, v); Bytes t = r.bytes(r.below(40)); b.push_back(r.coin()); b.insert(b.end(), t.begin(), t.end()); return b; };
        pair<stun::ErrorCodeAttribute>(c, "error code", raw(x), raw(y), x == y, [](const Bytes& b) {
            return stun::ErrorCodeAttribute{ref::get16(b.data()), b[2] ? Maybe<std::string>(std::string(b.begin() + 3, b.end())) : Maybe<std::string>(None{})}; });
        static const std::pair<unsigned, unsigned> named[] = {{stun::ErrorCodeAttribute::TryAlternate, 300}, {stun::ErrorCodeAttribute::BadRequest, 400}, {stun::ErrorCodeAttribute::Unauthorized, 401}, {stun::ErrorCodeAttribute::UnknownAttribute, 420}, {stun::ErrorCodeAttribute::StaleNonce, 438}, {stun::ErrorCodeAttribute::ServerError, 500}};
        for (auto& [n, v] : named) { CHECK(n == v, "code", "the named error code " << v << " is " << n); EV("named error codes"); }
        break;
    }
    case 11: { // names are kept, and compared, as written
        auto make = [](const Bytes& b) { return net::Fqdn::from_string(str(b)).unwrap(); };
        Bytes x = ref::bytes_of(tref::random_fqdn(r)), y;
        for (unsigned k = 0; ; ++k) {
            y = k > 20 ? x : near(r, x, true);
            if (r.chance(1, 4)) { for (auto& ch : y) { if (std::isalpha(ch) && r.coin()) { ch ^= 0x20; } } }
            if (r.chance(1, 4)) { if (!y.empty() && y.back() == '.') { y.pop_back(); } else { y.push_back('.'); } }
            if (net::Fqdn::from_string(str(y)).is_ok()) { break; }
        }
        if (net::Fqdn::from_string(str(x)).is_ok()) { pair<net::Fqdn>(c, "name", x, y, x == y, make); }
        break;
    }
    case 12: {
        static const std::string set = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/";
        std::string x(1 + r.below(32), 'a');
        for (auto& ch : x) { ch = set[r.below(64)]; }
        std::string y = x;
        switch (r.below(5)) { case 0: y[r.below(y.size())] = set[r.below(64)]; break; case 1: if (y.size() < 32) { y += set[r.below(64)]; } break; case 2: if (y.size() > 1) { y.pop_back(); } break; case 3: for (auto& ch : y) { if (std::isalpha((unsigned char)ch)) { ch ^= 0x20; } } break; default: break; }
        pair<ic::Foundation>(c, "foundation", ref::bytes_of(x), ref::bytes_of(y), x == y, [](const Bytes& b) { return ic::Foundation::from_string(str(b)).unwrap(); });
        break;
    }
    case 13: bytes_of_size<rtp::SSRC>(c, "SSRC", 4, false, [](const Bytes& b) { return rtp::SSRC::from_uint32(low(b)); }); break;
    case 14: bytes_of_size<Client::Handle>(c, "handle", 4, false, [](const Bytes& b) { return Client::Handle{low(b)}; }); break;
    default: {
        bytes_of_size<stun::AttributeType>(c, "attribute type", 2, false, [](const Bytes& b) { return stun::AttributeType::from_uint16((uint16_t)low(b)); });
        bytes_of_size<net::Port>(c, "port", 2, false, [](const Bytes& b) { return net::Port((uint16_t)low(b)); });
        break;
    }
    }
}

// Small types: every value against every other.
GROUP("P46", "pairs", 64, 64) {
    auto byte = [](unsigned v) { Bytes b; ref::put16(b, v); return b; };
    const unsigned all = 128;
    for (unsigned x = (unsigned)c.idx * all / 64; x < ((unsigned)c.idx + 1) * all / 64; ++x) {
        for (unsigned y = 0; y < all; ++y) {
            pair<rtp::PayloadType>(c, "payload type", byte(x), byte(y), x == y, [](const Bytes& b) { return rtp::PayloadType::from_uint8((uint8_t)b[1]).unwrap(); });
        }
    }
    for (unsigned x = 1 + (unsigned)c.idx * 4; x < 5 + (unsigned)c.idx * 4 && x <= 256; ++x) {
        for (unsigned y = 1; y <= 256; ++y) {
            pair<ic::ComponentId>(c, "component", byte(x), byte(y), x == y, [](const Bytes& b) { return ic::ComponentId::from_unsigned(low(b)).unwrap(); });
        }
    }
    for (unsigned k = 0; k < 60; ++k) {
        unsigned x = (unsigned)c.rng.below(0x4000), y = c.rng.chance(1, 8) ? x : c.rng.coin() ? x ^ (1u << c.rng.below(14)) : (unsigned)c.rng.below(0x4000);
        pair<stun::Class>(c, "class", byte(x), byte(y), ref::cls_of((uint16_t)x) == ref::cls_of((uint16_t)y), [](const Bytes& b) { return stun::Class::from_msg_type((uint16_t)low(b)); });
        const unsigned cls = 0x110; // bits of the class
        pair<stun::Method>(c, "method", byte(x), byte(y), (x & ~cls) == (y & ~cls), [](const Bytes& b) { return stun::Method::from_msg_type((uint16_t)low(b)); });
    }
    static const char* types[] = {"host", "srflx", "prflx", "relay"};
    for (unsigned i = 0; i < 4; ++i) { for (unsigned k = 0; k < 4; ++k) {
        pair<ic::Type>(c, "candidate type", byte(i), byte(k), i == k, [](const Bytes& b) { return b[1] == 0 && (b[0] & 1) ? ic::Type::host() : ic::Type::from_string(types[b[1]]).unwrap(); });
    } }
    pair<ic::TransportType>(c, "transport", byte(0), byte(1), true, [](const Bytes& b) { return b[1] ? ic::TransportType::udp() : ic::TransportType::from_string("uDp").unwrap(); });
    for (unsigned k = 0; k < 40; ++k) {
        uint32_t x = 1 + (uint32_t)c.rng.below(0xffffffff), y = c.rng.chance(1, 4) ? x : c.rng.coin() ? x ^ (1u << c.rng.below(32)) : 1 + (uint32_t)c.rng.below(0xffffffff);
        if (ic::Priority::from_uint32(x).is_err() || ic::Priority::from_uint32(y).is_err()) { continue; }
        Bytes p, q;
        ref::put32(p, x); ref::put32(q, y);
        pair<ic::Priority>(c, "candidate priority", p, q, x == y, [](const Bytes& b) { return ic::Priority::from_uint32(low(b)).unwrap(); });
    }
}
