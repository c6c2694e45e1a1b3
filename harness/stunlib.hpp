// The library seen through its public interface, for comparison with stunref.hpp.
#pragma once
#include "stunref.hpp"
#include "stun/stun_message.hpp"
#include "stun/stun_error.hpp"
#include "stun/stun_password.hpp"
#include "net/net_error.hpp"
#include "net/net_endpoint.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "util/util_error.hpp"

namespace lib {

using namespace freewebrtc;
using vf::Bytes;
using vf::Rng;
using View = util::ConstBinaryView;

inline Bytes bytes(const View& v) { return Bytes(v.begin(), v.end()); }
inline View view(const Bytes& b) { return View(b.data(), b.size()); }
inline View view(const vf::Exact& b) { return View(b.data(), b.size()); }

inline net::ip::Address address(const Bytes& ip) {
    if (ip.size() == 4) {
        std::array<uint8_t, 4> a;
        std::copy(ip.begin(), ip.end(), a.begin());
        return net::ip::Address(net::ip::AddressV4(std::move(a)));
    }
    std::array<uint8_t, 16> a;
    std::copy(ip.begin(), ip.end(), a.begin());
    return net::ip::Address(net::ip::AddressV6(std::move(a)));
}
inline Bytes ip_bytes(const net::ip::Address& a) {
    return std::visit([](auto& x) { return bytes(x.view()); }, a.value());
}
inline ref::Addr addr(const net::ip::Address& a, net::Port p) { return ref::Addr{ip_bytes(a), p.value()}; }
inline ref::Addr addr(const net::UdpEndpoint& e) { return addr(e.address, e.port); }
inline net::Endpoint endpoint(const ref::Addr& a, bool udp = true) {
    if (udp) { return net::Endpoint(net::UdpEndpoint{address(a.ip), net::Port(a.port)}); }
    return net::Endpoint(net::TcpEndpoint{address(a.ip), net::Port(a.port)});
}
inline std::string show(const ref::Addr& a) { return vf::hex(a.ip) + ":" + std::to_string(a.port); }

inline stun::Password password(const Bytes& key) {
    return stun::Password::short_term(precis::OpaqueString{std::string(key.begin(), key.end())}, crypto::openssl::sha1).unwrap();
}
inline stun::IntegrityData integrity(const Bytes& key) { return stun::IntegrityData{password(key), crypto::openssl::sha1}; }

using Stat = std::vector<std::pair<const char*, uint64_t>>;
inline Stat counters(const stun::ParseStat& s) {
    return {
        {"success", s.success.count()}, {"error", s.error.count()},
#define C(x) {#x, s.x.count()}
        C(invalid_size), C(invalid_message_type), C(not_padded), C(message_length_error), C(magic_cookie_error), C(invalid_attr_size), C(fingerprint_not_last), C(invalid_fingerprint),
        C(invalid_fingerprint_size), C(invalid_message_integrity), C(invalid_mapped_address), C(invalid_xor_mapped_address), C(invalid_ip_address), C(invalid_priority_size),
        C(invalid_ice_controlling_size), C(invalid_ice_controlled_size), C(invalid_use_candidate_size), C(invalid_error_code_size), C(invalid_unknown_attributes_attr_size),
        C(unknown_comprehension_required_attr)
#undef C
    };
}

// Errors that name the reason.
inline bool error_matches(const ::freewebrtc::Error& ec, const ref::Decoded& d) {
    using E = stun::ParseError;
    std::string_view r = d.reason;
    auto is = [&](E e) { return ec == stun::make_error_code(e); };
    if (r == "invalid_size") { return is(E::invalid_message_size); }
    if (r == "invalid_message_type") { return is(E::invalid_message_type); }
    if (r == "not_padded") { return is(E::not_padded_attributes); }
    if (r == "message_length_error") { return is(E::invalid_message_len); }
    if (r == "magic_cookie_error") { return is(E::invalid_magic_cookie); }
    if (r == "invalid_attr_size") { return is(E::invalid_attr_size); }
    if (r == "fingerprint_not_last") { return is(E::fingerprint_is_not_last); }
    if (r == "invalid_fingerprint") { return is(E::fingerprint_not_valid); }
    if (r == "invalid_fingerprint_size") { return is(E::fingerprint_crc_size); }
    if (r == "invalid_message_integrity") { return is(E::integrity_digest_size); }
    if (r == "invalid_mapped_address") { return is(E::invalid_mapped_addr); }
    if (r == "invalid_xor_mapped_address") { return true; } // a generic error today
    if (r == "invalid_ip_address") {
        if (d.bad[1] != 1 && d.bad[1] != 2) { return is(E::unknown_addr_family); }
        return ec == net::make_error_code(net::Error::invalid_address_size) || is(d.bad[1] == 1 ? E::invalid_ipv4_address_size : E::invalid_ipv6_address_size);
    }
    if (r == "invalid_priority_size") { return is(E::priority_attribute_size); }
    if (r == "invalid_ice_controlling_size") { return is(E::ice_controlling_size); }
    if (r == "invalid_ice_controlled_size") { return is(E::ice_controlled_size); }
    if (r == "invalid_use_candidate_size") { return is(E::use_candidate_size); }
    if (r == "invalid_error_code_size") { return is(E::error_code_attribute_size); }
    if (r == "invalid_unknown_attributes_attr_size") { return is(E::unknown_attributes_attribute_size); }
    return false;
}

inline std::vector<uint16_t> types(const std::vector<stun::AttributeType>& v) {
    std::vector<uint16_t> r;
    for (auto t : v) { r.push_back(t.value()); }
    return r;
}

// Everything the message exposes equals what is on the wire; a difference, or "".
inline std::string differs(const stun::Message& m, const ref::Decoded& d) {
    std::ostringstream o;
    auto cls = [&] { switch (m.header.cls.value()) { case stun::Class::REQUEST: return 0u; case stun::Class::INDICATION: return 1u; case stun::Class::SUCCESS_RESPONSE: return 2u; case stun::Class::ERROR_RESPONSE: return 3u; } return 9u; };
    if (cls() != d.cls()) { o << "class " << cls() << " instead of " << d.cls() << "; "; }
    if (m.header.method.to_msg_type() != (d.type & ~0x0110)) { o << "method " << m.header.method.to_msg_type() << " of type " << d.type << "; "; }
    if (bytes(m.header.transaction_id.view()) != d.tid) { o << "transaction id " << vf::hex(bytes(m.header.transaction_id.view())) << " instead of " << vf::hex(d.tid) << "; "; }
    if ((bool)m.is_rfc3489 != d.rfc3489) { o << "rfc3489 " << (bool)m.is_rfc3489 << "; "; }
    const auto& a = m.attribute_set;
    auto presence = [&](uint16_t t, bool here) {
        if (here != d.has(t)) { o << "attribute " << t << (here ? " is reported but not there; " : " is not reported; "); }
        return here && d.has(t);
    };
    if (presence(ref::A_INTEGRITY, a.integrity().is_some())) {
        auto& v = a.integrity().unwrap().get().value.value();
        if (Bytes(v.begin(), v.end()) != d.known.at(ref::A_INTEGRITY)) { o << "integrity digest; "; }
    }
    if (presence(ref::A_USERNAME, a.username().is_some())) { if (ref::bytes_of(a.username().unwrap().get().value) != d.known.at(ref::A_USERNAME)) { o << "username; "; } }
    if (presence(ref::A_SOFTWARE, a.software().is_some())) { if (ref::bytes_of(a.software().unwrap().get()) != d.known.at(ref::A_SOFTWARE)) { o << "software; "; } }
    if (presence(ref::A_XOR, a.xor_mapped().is_some())) {
        auto& x = a.xor_mapped().unwrap().get();
        auto w = ref::Decoded::addr(d.known.at(ref::A_XOR));
        if (bytes(x.addr.view()) != w.ip || x.addr.family().to_uint8() != (w.ip.size() == 4 ? 1 : 2) || x.port.value() != (w.port ^ 0x2112)) { o << "xor-mapped address; "; }
        if (d.tid.size() == 12) {
            ref::Addr r = ref::xored(w, d.tid);
            if (addr(x.addr.to_address(m.header.transaction_id), x.port) != r) { o << "decoded xor-mapped address; "; }
        }
    }
    if (presence(ref::A_MAPPED, a.mapped().is_some())) {
        auto& x = a.mapped().unwrap().get();
        if (addr(x.addr, x.port) != ref::Decoded::addr(d.known.at(ref::A_MAPPED))) { o << "mapped address; "; }
    }
    if (presence(ref::A_ALTERNATE, a.alternate_server().is_some())) {
        auto& x = a.alternate_server().unwrap().get();
        if (addr(x.addr, x.port) != ref::Decoded::addr(d.known.at(ref::A_ALTERNATE))) { o << "alternate server; "; }
    }
    if (presence(ref::A_PRIORITY, a.priority().is_some())) { if (a.priority().unwrap().get() != ref::get32(d.known.at(ref::A_PRIORITY).data())) { o << "priority; "; } }
    if (presence(ref::A_CONTROLLED, a.ice_controlled().is_some())) { if (a.ice_controlled().unwrap().get() != ref::get64(d.known.at(ref::A_CONTROLLED).data())) { o << "ice-controlled; "; } }
    if (presence(ref::A_CONTROLLING, a.ice_controlling().is_some())) { if (a.ice_controlling().unwrap().get() != ref::get64(d.known.at(ref::A_CONTROLLING).data())) { o << "ice-controlling; "; } }
    presence(ref::A_USE, a.has_use_candidate());
    presence(ref::A_FINGERPRINT, a.has_fingerprint());
    if (presence(ref::A_ERROR, a.error_code().is_some())) {
        auto& x = a.error_code().unwrap().get();
        auto& v = d.known.at(ref::A_ERROR);
        if (x.code != d.error_code()) { o << "error code " << x.code << " instead of " << d.error_code() << "; "; }
        Bytes phrase(v.begin() + 4, v.end());
        std::string got = x.reason_phrase.is_some() ? x.reason_phrase.unwrap() : std::string();
        if (ref::bytes_of(got) != phrase) { o << "reason phrase; "; }
        if (m.is_alternate_server() != (d.cls() == 3 && d.error_code() == 300)) { o << "is_alternate_server; "; }
    } else if (m.is_alternate_server()) { o << "is_alternate_server without error code; "; }
    if (presence(ref::A_UNKNOWN, a.unknown_attributes().is_some())) {
        std::vector<uint16_t> w;
        auto& v = d.known.at(ref::A_UNKNOWN);
        for (size_t i = 0; i + 1 < v.size(); i += 2) { w.push_back((uint16_t)ref::get16(&v[i])); }
        if (types(a.unknown_attributes().unwrap().get().types) != w) { o << "unknown-attributes; "; }
    }
    if (types(a.unknown_comprehension_required()) != d.required_unknown()) { o << "unknown comprehension-required attributes; "; }
    if (m.integrity_interval.is_some() != (d.integrity_off != 0)) { o << "integrity interval; "; }
    else if (d.integrity_off != 0) {
        auto i = m.integrity_interval.unwrap();
        if (i.offset != 0 || i.count != d.integrity_off) { o << "integrity interval " << i.offset << "+" << i.count << "; "; }
    }
    return o.str();
}

// Hash of everything the message exposes.
inline uint64_t digest(const stun::Message& m) {
    vf::Hash h;
    const auto& a = m.attribute_set;
    h.add(m.header.cls.to_msg_type()).add(m.header.method.to_msg_type()).add(bytes(m.header.transaction_id.view())).add((bool)m.is_rfc3489);
    auto ad = [&](const net::ip::Address& x, net::Port p) { h.add(ip_bytes(x)).add(p.value()); };
    h.add(1); if (a.integrity().is_some()) { auto& v = a.integrity().unwrap().get().value.value(); h.add(v.data(), v.size()); }
    h.add(2); if (a.username().is_some()) { h.add(a.username().unwrap().get().value); }
    h.add(3); if (a.software().is_some()) { h.add(a.software().unwrap().get()); }
    h.add(4); if (a.xor_mapped().is_some()) { auto& x = a.xor_mapped().unwrap().get(); h.add(bytes(x.addr.view())).add(x.port.value()); ad(x.addr.to_address(m.header.transaction_id), x.port); }
    h.add(5); if (a.mapped().is_some()) { auto& x = a.mapped().unwrap().get(); ad(x.addr, x.port); }
    h.add(6); if (a.priority().is_some()) { h.add(a.priority().unwrap().get()); }
    h.add(7); if (a.ice_controlling().is_some()) { h.add(a.ice_controlling().unwrap().get()); }
    h.add(8); if (a.ice_controlled().is_some()) { h.add(a.ice_controlled().unwrap().get()); }
    h.add(9).add(a.has_use_candidate()).add(a.has_fingerprint());
    h.add(10); if (a.error_code().is_some()) { auto& x = a.error_code().unwrap().get(); h.add(x.code); if (x.reason_phrase.is_some()) { h.add(x.reason_phrase.unwrap()); } }
    h.add(11); if (a.unknown_attributes().is_some()) { for (auto t : a.unknown_attributes().unwrap().get().types) { h.add(t.value()); } }
    h.add(12); if (a.alternate_server().is_some()) { auto& x = a.alternate_server().unwrap().get(); ad(x.addr, x.port); }
    h.add(13); for (auto t : a.unknown_comprehension_required()) { h.add(t.value()); }
    h.add(14).add(m.is_alternate_server());
    return h.get();
}

}
