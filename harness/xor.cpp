// P11: XOR-mapped addresses.
#include "stunlib.hpp"
#include "stun/stun_address.hpp"
#include "stun/stun_transaction_id.hpp"

using namespace lib;

namespace {
stun::TransactionId tid(const Bytes& b) { return stun::TransactionId(view(b)); }
Bytes tid_bytes(vf::Rng& r, size_t n = 12) {
    Bytes t = r.bytes(n);
    if (r.chance(1, 6)) { std::fill(t.begin(), t.end(), r.coin() ? 0 : 0xff); }
    return t;
}
void judge(vf::Ctx& c, const ref::Addr& a, const Bytes& t) {
    vf::Exact et(t, c.rng.below(4));
    stun::TransactionId id(view(et));
    et.release();
    auto x = stun::XoredAddress::from_address(address(a.ip), id);
    Bytes wire = ref::xored(a, t).ip;
    CHECK(bytes(x.view()) == wire, "wire", "address " << vf::hex(a.ip) << " for " << vf::hex(t) << " is encoded as " << vf::hex(bytes(x.view())) << " instead of " << vf::hex(wire));
    CHECK(x.family().type() == (a.ip.size() == 4 ? stun::Family::IPv4 : stun::Family::IPv6) && x.family().to_uint8() == (a.ip.size() == 4 ? 1 : 2), "family", "family of " << vf::hex(a.ip));
    CHECK(ip_bytes(x.to_address(id)) == a.ip, "round.trip", "address " << vf::hex(a.ip) << " for " << vf::hex(t) << " comes back as " << vf::hex(ip_bytes(x.to_address(id))));
    CHECK(x.to_address(id) == address(a.ip), "round.trip.equal", "address is not equal to itself: " << vf::hex(a.ip));
    // From the wire, at any alignment.
    vf::Exact w(wire, c.rng.below(4));
    auto y = stun::XoredAddress::from_view(a.ip.size() == 4 ? stun::Family::ipv4() : stun::Family::ipv6(), view(w));
    w.release();
    CHECK(y.is_ok(), "from.wire", "wire value is refused " << vf::hex(wire));
    CHECK(y.unwrap() == x, "equal", "encoded and received address are different: " << vf::hex(wire));
    CHECK(ip_bytes(y.unwrap().to_address(id)) == a.ip, "decode", "received address " << vf::hex(wire) << " is decoded as " << vf::hex(ip_bytes(y.unwrap().to_address(id))));
    // Another transaction.
    Bytes t2 = t;
    t2[c.rng.below(12)] ^= (uint8_t)(1u << c.rng.below(8));
    bool same = ip_bytes(x.to_address(tid(t2))) == a.ip;
    CHECK(same == (a.ip.size() == 4), "other.transaction", "address " << vf::hex(a.ip) << (same ? " is" : " is not") << " decoded with another transaction id");
    CHECK((stun::XoredAddress::from_address(address(a.ip), tid(t2)) == x) == (a.ip.size() == 4), "other.encoding", "encodings for different transactions");
    // Another address, one bit away.
    ref::Addr b = a;
    b.ip[c.rng.below(b.ip.size())] ^= (uint8_t)(1u << c.rng.below(8));
    auto z = stun::XoredAddress::from_address(address(b.ip), id);
    CHECK(!(z == x), "different", "encodings of different addresses are equal: " << vf::hex(a.ip) << " " << vf::hex(b.ip));
    EV(a.ip.size() == 4 ? "IPv4 addresses" : "IPv6 addresses");
    c.distinct(vf::Hash().add(a.ip).add(t));
}
}

GROUP("P11", "random", 20000, 2000000) {
    ref::Addr a = ref::random_addr(c.rng);
    Bytes t = tid_bytes(c.rng);
    if (c.rng.chance(1, 8) && a.ip.size() == 16) { std::copy(t.begin(), t.end(), a.ip.begin() + 4); }
    judge(c, a, t);
    c.sample(vf::hex(a.ip) + " for " + vf::hex(t) + " is " + vf::hex(ref::xored(a, t).ip));
}

// Each bit of address and id alone.
GROUP("P11", "bits", 128 + 32 + 96, 128 + 32 + 96) {
    ref::Addr a;
    Bytes t(12);
    if (c.idx < 128) { a.ip.assign(16, 0); a.ip[c.idx / 8] = (uint8_t)(1 << c.idx % 8); }
    else if (c.idx < 160) { a.ip.assign(4, 0); a.ip[(c.idx - 128) / 8] = (uint8_t)(1 << c.idx % 8); }
    else { a.ip.assign(16, 0); t[(c.idx - 160) / 8] = (uint8_t)(1 << c.idx % 8); }
    judge(c, a, t);
    for (auto& x : a.ip) { x = ~x; }
    judge(c, a, t);
}

// Sizes other than those of the family are refused; families other than two.
GROUP("P11", "sizes", 64, 640) {
    size_t n = c.idx % 64;
    Bytes b = c.rng.bytes(n);
    vf::Exact e(b, c.rng.below(3));
    auto r4 = stun::XoredAddress::from_view(stun::Family::ipv4(), view(e)), r6 = stun::XoredAddress::from_view(stun::Family::ipv6(), view(e));
    CHECK(r4.is_ok() == (n == 4), "size.v4", n << " bytes as an IPv4 address");
    CHECK(r6.is_ok() == (n == 16), "size.v6", n << " bytes as an IPv6 address");
    if (n != 4) { CHECK(r4.unwrap_err() == stun::make_error_code(stun::ParseError::invalid_ipv4_address_size), "size.v4.error", r4.unwrap_err().message()); }
    if (n != 16) { CHECK(r6.unwrap_err() == stun::make_error_code(stun::ParseError::invalid_ipv6_address_size), "size.v6.error", r6.unwrap_err().message()); }
    for (unsigned f = 0; f < 256; ++f) {
        auto r = stun::Family::from_uint8((uint8_t)f);
        CHECK(r.is_ok() == (f == 1 || f == 2), "family.code", "family " << f);
        if (r.is_ok()) { CHECK(r.unwrap().to_uint8() == f && r.unwrap().type() == (f == 1 ? stun::Family::IPv4 : stun::Family::IPv6), "family.code", "family " << f << " is " << (int)r.unwrap().to_uint8()); }
    }
    EV("sizes");
    c.distinct(vf::Hash().add(n));
}

// Through a message: build with the attribute and parse it back.
GROUP("P11", "in messages", 4000, 200000) {
    ref::Addr a = ref::random_addr(c.rng);
    Bytes t = tid_bytes(c.rng);
    stun::TransactionId id = tid(t);
    stun::AttributeSet set;
    set.emplace(stun::Attribute::create(stun::XorMappedAddressAttribute{stun::XoredAddress::from_address(address(a.ip), id), net::Port(a.port)}));
    stun::Message m{stun::Header{stun::Class::success_response(), stun::Method::binding(), id}, std::move(set), stun::IsRFC3489{false}, none()};
    auto b = m.build();
    CHECK(b.is_ok(), "message.build", b.unwrap_err().message());
    Bytes want = ref::Enc(ref::msg_type(2, 1), t).attr(ref::A_XOR, ref::addr_value(ref::xored(a, t))).bytes();
    Bytes got(b.unwrap().begin(), b.unwrap().end());
    CHECK(got == want, "message.wire", vf::hex(got) << " instead of " << vf::hex(want));
    vf::Exact e(got, c.rng.below(4));
    stun::ParseStat st;
    auto r = stun::Message::parse(view(e), st);
    CHECK(r.is_ok() && r.unwrap().attribute_set.xor_mapped().is_some(), "message.parse", "own message is refused " << vf::hex(got));
    e.release();
    auto& x = r.unwrap().attribute_set.xor_mapped().unwrap().get();
    CHECK(addr(x.addr.to_address(r.unwrap().header.transaction_id), x.port) == a, "message.address", "address " << show(a) << " in a message comes back as " << show(addr(x.addr.to_address(r.unwrap().header.transaction_id), x.port)));
    EV("messages");
    c.distinct(vf::Hash().add(a.ip).add(t).add(a.port));
}

// Transaction ids of RFC 3489 have 16 bytes: what is encoded for one of them is decoded with it.
GROUP("P11", "classic ids", 2000, 100000) {
    ref::Addr a = ref::random_addr(c.rng);
    Bytes t = tid_bytes(c.rng, 16);
    vf::Exact et(t, c.rng.below(4));
    stun::TransactionId id(view(et));
    et.release();
    auto x = stun::XoredAddress::from_address(address(a.ip), id);
    CHECK(ip_bytes(x.to_address(id)) == a.ip, "round.trip", "address " << vf::hex(a.ip) << " for " << vf::hex(t) << " comes back as " << vf::hex(ip_bytes(x.to_address(id))));
    CHECK(bytes(x.view()).size() == a.ip.size(), "wire", "address of " << a.ip.size() << " bytes is encoded as " << vf::hex(bytes(x.view())));
    if (a.ip.size() == 4) { CHECK(bytes(x.view()) == ref::xored(a, t).ip, "wire", "address " << vf::hex(a.ip) << " is encoded as " << vf::hex(bytes(x.view()))); }
    auto y = stun::XoredAddress::from_view(a.ip.size() == 4 ? stun::Family::ipv4() : stun::Family::ipv6(), x.view());
    CHECK(y.is_ok() && y.unwrap() == x && ip_bytes(y.unwrap().to_address(id)) == a.ip, "decode", "received address is not the one that was sent");
    EV("16-byte transaction ids");
    c.distinct(vf::Hash().add(a.ip).add(t));
}
