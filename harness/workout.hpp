// Work with fresh objects of every module. Each function is determined by its seed
// and returns a digest of everything that the library said. Nothing here touches
// the (single threaded) observation counters.
#pragma once
#include "clientlib.hpp"
#include "textref.hpp"
#include "stun/stun_server_stateless.hpp"
#include "stun/details/stun_fingerprint.hpp"
#include "crypto/crypto_hmac.hpp"
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_error.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "net/net_fqdn.hpp"
#include "net/net_path_hash.hpp"
#include "net/ip/ip_address_hash.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "ice/candidate/ice_candidate_preference.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
#include "util/util_intrusive_list.hpp"
#include "util/util_hash_murmur.hpp"
#include "util/util_string_view.hpp"
#include "util/util_token_stream.hpp"
#include "clock/clock_std.hpp"
#include "abnf/abnf.hpp"
#include <unordered_set>

namespace work {

using namespace cl;
namespace ic = freewebrtc::ice::candidate;

template<typename E> void add_error(vf::Hash& h, const E& e) { h.add(e.message()).add(std::string(e.category().name())); }

// The library's own builder, from values.
inline uint64_t stun_build(uint64_t seed) {
    Rng r(seed);
    vf::Hash h;
    for (unsigned k = 0; k < 3; ++k) {
        Bytes tid = ref::random_tid(r);
        stun::Header hd{stun::Class::from_msg_type(ref::msg_type((unsigned)r.below(4), 0)), stun::Method::from_msg_type(ref::msg_type(0, 1)), stun::TransactionId(view(tid))};
        stun::AttributeSet set;
        auto put = [&](auto&& v) { if (r.coin()) { set.emplace(stun::Attribute::create(std::move(v))); } };
        std::string text(r.below(30), 'a');
        put(stun::UsernameAttribute{precis::OpaqueString{text}});
        put(stun::SoftwareAttribute{text + "x"});
        ref::Addr a = ref::random_addr(r), b = ref::random_addr(r);
        put(stun::MappedAddressAttribute{address(a.ip), net::Port(a.port)});
        put(stun::XorMappedAddressAttribute{stun::XoredAddress::from_address(address(b.ip), hd.transaction_id), net::Port(b.port)});
        put(stun::AlternateServerAttribute{address(b.ip), net::Port(b.port)});
        put(stun::PriorityAttribute{r.u32()});
        put(stun::IceControlledAttribute{r.u64()});
        put(stun::IceControllingAttribute{r.u64()});
        put(stun::UseCandidateAttribute{});
        put(stun::ErrorCodeAttribute{(unsigned)r.range(300, 699), r.coin() ? Maybe<std::string>(text) : Maybe<std::string>(None{})});
        stun::UnknownAttributesAttribute u;
        for (unsigned i = 0; i < r.below(5); ++i) { u.types.push_back(stun::AttributeType::from_uint16((uint16_t)r.u32())); }
        put(std::move(u));
        while (r.coin()) { Bytes v = r.bytes(r.below(9)); set.emplace(stun::UnknownAttribute{stun::AttributeType::from_uint16(0xff00 | (uint16_t)r.below(100)), view(v)}); }
        put(stun::FingerprintAttribute{0});
        stun::Message m{hd, std::move(set), stun::IsRFC3489{false}, none()};
        h.add(digest(m));
        Bytes key = r.bytes(r.below(90));
        auto built = r.coin() ? m.build() : m.build(integrity(key));
        if (built.is_err()) { add_error(h, built.unwrap_err()); continue; }
        Bytes p(built.unwrap().begin(), built.unwrap().end());
        h.add(p);
        stun::ParseStat st;
        auto back = stun::Message::parse(view(p), st);
        if (back.is_err()) { add_error(h, back.unwrap_err()); continue; }
        h.add(digest(back.unwrap()));
        auto v = back.unwrap().is_valid(view(p), integrity(key));
        h.add(v.is_ok() ? (v.unwrap().is_some() ? 1 + (bool)v.unwrap().unwrap() : 3) : 4);
    }
    return h.get();
}
inline uint64_t stun_parse(uint64_t seed) {
    Rng r(seed);
    vf::Hash h;
    stun::ParseStat st;
    for (unsigned k = 0; k < 6; ++k) {
        Bytes p = ref::random_message(r).packet;
        for (unsigned n = (unsigned)r.below(3); n > 0; --n) { ref::mutate(r, p); }
        if (r.coin()) { ref::refresh_fingerprint(p); }
        vf::Exact x(p, r.below(8));
        auto m = stun::Message::parse(view(x), st);
        Bytes key = r.bytes(5);
        if (m.is_err()) { add_error(h, m.unwrap_err()); continue; }
        h.add(digest(m.unwrap()));
        auto v = m.unwrap().is_valid(view(x), integrity(key));
        h.add(v.is_ok() ? (v.unwrap().is_some() ? 1 + (bool)v.unwrap().unwrap() : 3) : 4);
        auto b = m.unwrap().build(integrity(key));
        if (b.is_ok()) { h.add(b.unwrap().data(), b.unwrap().size()); }
    }
    for (auto& [n, v] : counters(st)) { h.add(v); }
    return h.get();
}
inline uint64_t stun_server(uint64_t seed) {
    Rng r(seed);
    vf::Hash h;
    stun::server::Stateless s{crypto::openssl::sha1, Maybe<stun::server::Stateless::Settings>{stun::server::Stateless::Settings{.use_fingerprint = r.coin()}}};
    std::vector<std::pair<Bytes, Bytes>> users;
    for (unsigned i = 0; i < 3; ++i) {
        users.emplace_back(r.bytes(1 + r.below(12)), r.bytes(r.below(80)));
        s.add_user(precis::OpaqueString{std::string(users.back().first.begin(), users.back().first.end())}, password(users.back().second));
    }
    for (unsigned k = 0; k < 6; ++k) {
        bool old = r.chance(1, 5);
        Bytes tid = r.bytes(old ? 16 : 12);
        if (old) { tid[0] = 0; }
        ref::Enc e(ref::msg_type(0, 1), tid);
        if (r.chance(1, 5)) { e.attr(0x7777, r.bytes(3)); }
        if (r.chance(3, 4)) {
            auto& u = r.pick(users);
            e.attr(ref::A_USERNAME, u.first);
            if (r.chance(5, 6)) { e.integrity(r.chance(4, 5) ? u.second : r.bytes(4)); }
        }
        if (r.coin() && !old) { e.fingerprint(); }
        Bytes p = r.chance(1, 5) ? ref::random_message(r).packet : e.bytes();
        vf::Exact x(p);
        auto res = s.process(endpoint(ref::random_addr(r), r.coin()), view(x));
        x.release();
        h.add(res.index());
        if (auto* a = std::get_if<stun::server::Stateless::Respond>(&res)) {
            h.add(digest(a->response)).add(digest(a->request));
            auto b = a->response.build(a->maybe_integrity);
            if (b.is_ok()) { h.add(b.unwrap().data(), b.unwrap().size()); }
        } else if (auto* i = std::get_if<stun::server::Stateless::Ignore>(&res)) {
            if (i->message.is_some()) { h.add(digest(i->message.unwrap())); }
        }
    }
    return h.get();
}
inline uint64_t stun_client(uint64_t seed) {
    Rng r(seed);
    vf::Hash h;
    Settings st;
    st.fingerprint = r.coin();
    st.rc = 1 + (unsigned)r.below(5);
    st.rto = r.one_of<us>({1000, 500000});
    st.max_rto = r.coin() ? 4 * st.rto : 0;
    st.server_error = r.coin() ? 1000000 : -1;
    st.allow_alternate = r.coin();
    Driver d(st, random_base(r), r.u64());
    for (unsigned k = 0; k < 25; ++k) {
        switch (r.below(4)) {
        case 0: { TxSpec t; t.path = random_path(r); random_auth(r, t); h.add((uint64_t)d.create(t)); break; }
        case 1: if (!d.txns.empty()) { auto e = d.respond(random_reply(r, r.pick(d.txns)).bytes(), r.coin()); if (e.is_some()) { add_error(h, e.unwrap()); } } break;
        case 2: d.now += (us)(r.u64() >> (40 + r.below(24))); break;
        default: d.poll();
        }
    }
    d.drain();
    for (auto& e : d.trace) { h.add(e.type).add((uint64_t)e.t).add(e.handle).add(e.hash); }
    h.add(d.broken);
    return h.get();
}
inline uint64_t rtp_packets(uint64_t seed) {
    Rng r(seed);
    vf::Hash h;
    auto pair = [&](unsigned pt) { return rtp::PayloadMap::InitPair{rtp::PayloadType::from_uint8((uint8_t)pt).unwrap(), rtp::PayloadMapItem{rtp::ClockRate(r.u32())}}; };
    rtp::PayloadMap map{pair(0), pair(8), pair(96), pair(127)};
    rtp::ParseStat st{};
    for (unsigned k = 0; k < 8; ++k) {
        Bytes p = r.bytes(12 + r.below(60));
        if (r.chance(7, 8)) { p[0] = (uint8_t)(0x80 | (r.chance(1, 3) ? p[0] & 0x3f : p[0] & 0x31)); p[1] = (uint8_t)((p[1] & 0x80) | r.one_of<unsigned>({0, 8, 96, 127})); }
        size_t e = 12 + 4 * (p[0] & 15u);
        if (e + 4 <= p.size() && r.chance(3, 4)) { p[e + 2] = 0; p[e + 3] &= 3; }
        if (r.coin()) { p.back() &= 7; }
        vf::Exact x(p, r.below(4));
        auto m = rtp::Packet::parse(view(x), map, st);
        x.release();
        if (m.is_err()) { add_error(h, m.unwrap_err()); continue; }
        auto& q = m.unwrap();
        h.add((bool)q.header.marker).add(q.header.payload_type.value()).add(q.header.sequence.value()).add(q.header.ssrc.value()).add(q.header.timestamp.value()).add(q.payload.offset).add(q.payload.count);
        for (auto& s : q.header.csrcs) { h.add(s.value()); }
        if (q.header.maybe_extension.is_some()) { auto& y = q.header.maybe_extension.unwrap(); h.add(y.profile_defined).add(y.data.offset).add(y.data.count); }
    }
    h.add(st.success.count()).add(st.error.count());
    return h.get();
}
inline void add_address(vf::Hash& h, const ic::Address& a) {
    if (a.as_ip_address().is_some()) { h.add(ip_bytes(a.as_ip_address().unwrap().get())); }
    if (a.as_fqdn().is_some()) { h.add(a.as_fqdn().unwrap().get().to_string()); }
    auto t = a.to_string();
    if (t.is_ok()) { h.add(t.unwrap()); }
}
inline uint64_t ice_candidates(uint64_t seed) {
    Rng r(seed);
    vf::Hash h;
    for (unsigned k = 0; k < 5; ++k) {
        std::string s = "candidate:" + std::to_string(r.u32()) + " " + std::to_string(1 + r.below(256)) + " " + r.one_of<std::string>({"UDP", "udp", "tcp"}) + " " + std::to_string(1 + r.below(0xffffffff)) + " " +
            (r.coin() ? tref::random_ip_text(r) : tref::random_fqdn(r)) + " " + std::to_string(r.below(65536)) + " typ " + r.one_of<std::string>({"host", "srflx", "PRFLX", "relay", "other"});
        if (r.coin()) { s += " raddr " + tref::random_ip_text(r) + " rport " + std::to_string(r.below(70000)); }
        while (r.coin()) { s += " n" + std::to_string(r.below(10)) + " v" + std::to_string(r.below(1000000)); }
        if (r.chance(1, 3)) { tref::mutate(r, s, " 0123456789abz:."); }
        vf::Exact x{std::string_view(s)};
        auto p = ic::parse_sdp_attr(x.sv());
        x.release();
        if (p.is_err()) { add_error(h, p.unwrap_err()); continue; }
        if (auto* u = std::get_if<ic::Unsupported>(&p.unwrap())) { h.add(u->value); continue; }
        auto& q = std::get<ic::Supported>(p.unwrap());
        auto& c = q.candidate;
        h.add(c.foundation.to_string()).add(c.component.value()).add(c.transport_type.to_string()).add(c.port.value()).add(c.type.to_string());
        add_address(h, c.address);
        if (c.maybe_related_address.is_some()) { add_address(h, c.maybe_related_address.unwrap()); }
        if (c.maybe_related_port.is_some()) { h.add(c.maybe_related_port.unwrap().value()); }
        for (auto& e : q.extensions) { h.add(e.att_name).add(e.att_value); }
        auto prio = ic::Priority::from_uint32((uint32_t)r.u32() | 1).unwrap();
        h.add(prio == c.priority);
    }
    for (auto t : {ic::Type::host(), ic::Type::server_reflexive(), ic::Type::peer_reflexive(), ic::Type::relayed()}) { h.add(t.to_string()).add(ic::TypePreference::recommended_for(t).value()); }
    return h.get();
}
inline uint64_t net_texts(uint64_t seed) {
    Rng r(seed);
    vf::Hash h;
    for (unsigned k = 0; k < 6; ++k) {
        std::string s = tref::random_ip_text(r);
        if (r.chance(1, 3)) { tref::mutate(r, s, "0123456789abcdef:."); }
        auto a = net::ip::Address::from_string(s);
        if (a.is_ok()) { h.add(ip_bytes(a.unwrap())); auto t = a.unwrap().to_string(); if (t.is_ok()) { h.add(t.unwrap()); } } else { add_error(h, a.unwrap_err()); }
        std::string n = tref::random_fqdn(r);
        if (r.chance(1, 3)) { tref::mutate(r, n, "abc019-._ "); }
        auto f = net::Fqdn::parse(n);
        if (f.is_ok()) { h.add(f.unwrap().value.to_string()).add(f.unwrap().rest); } else { add_error(h, f.unwrap_err()); }
        auto p = net::Port::from_string(std::to_string(r.below(100000)));
        if (p.is_ok()) { h.add(p.unwrap().value()); } else { add_error(h, p.unwrap_err()); }
    }
    return h.get();
}
inline uint64_t hashes(uint64_t seed) {
    Rng r(seed);
    vf::Hash h;
    stun::TransactionIdHash th = stun::MurmurTransactionIdHash<>::create();
    struct Seeded { size_t operator()() { return 0x1234567; } };
    stun::TransactionIdHash th2 = stun::MurmurTransactionIdHash<Seeded>::create();
    for (unsigned k = 0; k < 6; ++k) {
        Bytes b = r.bytes(r.below(40));
        vf::Exact x(b, r.below(8));
        h.add(util::hash::murmur(view(x), r.u64()));
        auto a = address(r.bytes(r.coin() ? 4 : 16)), a2 = address(r.bytes(r.coin() ? 4 : 16));
        h.add(net::ip::AddressHash{}(a)).add(net::PathHash{}(net::Path{a, a2}));
        h.add(precis::OpaqueStringHash{}(precis::OpaqueString{std::string(b.begin(), b.end())}));
        Bytes tid = ref::random_tid(r);
        stun::TransactionId id(view(tid));
        h.add(th(id)).add(th2(id)).add(id == stun::TransactionId(view(tid)));
        auto d = crypto::openssl::sha1({view(x), view(tid)});
        if (d.is_ok()) { auto v = d.unwrap().view(); h.add(v.data(), v.size()); }
        auto m5 = crypto::openssl::md5({view(x)});
        if (m5.is_ok()) { auto v = m5.unwrap().view(); h.add(v.data(), v.size()); }
        Bytes key = r.bytes(r.one_of<size_t>({0, 5, 64, 65, 100}));
        auto ip = crypto::hmac::IPadKey::from_key(view(key), crypto::openssl::sha1);
        auto op = crypto::hmac::OPadKey::from_key(view(key), crypto::openssl::sha1);
        if (ip.is_ok() && op.is_ok()) {
            h.add(ip.unwrap().view().data(), 64);
            auto mac = crypto::hmac::digest(std::vector<View>{view(x)}, op.unwrap(), ip.unwrap(), std::function(crypto::openssl::sha1));
            if (mac.is_ok()) { auto v = mac.unwrap().value.view(); h.add(v.data(), v.size()); }
        }
        h.add(stun::crc32({view(x), view(tid)}));
    }
    return h.get();
}
// Readings differ from run to run: only what must hold of them is added.
inline uint64_t clocks(uint64_t seed) {
    Rng r(seed);
    vf::Hash h;
    using T = clock::Timepoint;
    clock::ChronoClockConverter<std::chrono::steady_clock> own;
    T prev = clock::steady_clock_now(), mine = own.now();
    bool ok = true;
    for (unsigned k = 0; k < 20; ++k) { T t = clock::steady_clock_now(), m = own.now(); ok = ok && !t.is_before(prev) && !m.is_before(mine); prev = t; mine = m; }
    auto d = (prev - mine).count();
    h.add(ok).add(d > -1000000000 && d < 1000000000);
    T t = T::epoch();
    for (unsigned k = 0; k < 10; ++k) {
        std::chrono::duration<int64_t, std::nano> n{(int64_t)(r.u64() >> 20) * (r.coin() ? 1 : -1)};
        t = t.advance_from(n);
        h.add((uint64_t)n.count()).add((uint64_t)(t - T::epoch()).count()).add(t.is_after(T::epoch()));
    }
    return h.get();
}
struct Item {
    explicit Item(int i) : id(i), link(*this) {}
    int id;
    util::IntrusiveList<Item>::Link link;
};
inline uint64_t lists(uint64_t seed) {
    Rng r(seed);
    vf::Hash h;
    using L = util::IntrusiveList<Item>;
    std::vector<std::unique_ptr<Item>> v;
    L a(&Item::link), b(&Item::link);
    for (int i = 0; i < 8; ++i) { v.push_back(std::make_unique<Item>(i)); }
    for (unsigned k = 0; k < 60; ++k) {
        L& l = r.coin() ? a : b;
        auto& e = v[r.below(v.size())];
        switch (r.below(8)) {
        case 0: case 1: l.push_back(*e); break;
        case 2: l.push_front(*e); break;
        case 3: if (!l.empty()) { l.pop_back(); } break;
        case 4: e->link.remove(); break;
        case 5: e = std::make_unique<Item>((int)k + 100); break;
        case 6: { L m(std::move(l)); l = std::move(m); break; }
        default: if (r.chance(1, 4)) { l.clear(); }
        }
        for (L* x : {&a, &b}) { h.add(x->empty()); if (!x->empty()) { h.add((uint64_t)x->front().unwrap().get().id).add((uint64_t)x->back().unwrap().get().id); } }
        h.add(e->link.in_list());
    }
    return h.get();
}
inline uint64_t errors(uint64_t seed) {
    Rng r(seed);
    vf::Hash h;
    auto all = [&](auto e, int n) { for (int i = 0; i <= n + 1; ++i) { auto c = make_error_code((decltype(e))i); h.add(c.message()).add(std::string(c.category().name())).add((bool)c).add(c == make_error_code((decltype(e))r.below((uint64_t)n + 1))); } };
    all(stun::ParseError::ok, 20);
    all(stun::ClientError::ok, 6);
    all(net::Error::ok, 5);
    all(rtp::Error::ok, 6);
    all(ic::Error::ok, 14);
    return h.get();
}
inline uint64_t texts(uint64_t seed) {
    Rng r(seed);
    vf::Hash h;
    for (unsigned k = 0; k < 5; ++k) {
        std::string s = tref::random_text(r, r.below(60), "abc   ,");
        auto parts = util::string_view::split_all(std::string_view(s), ' ');
        for (auto& p : parts) { h.add(p); }
        util::TokenStream ts{std::move(parts)};
        auto t2 = ts;
        for (unsigned i = 0; i < 10; ++i) {
            auto q = ts.required();
            if (q.is_ok()) { h.add(q.unwrap()); } else { add_error(h, q.unwrap_err()); }
            if (r.coin()) { auto o = t2.optional(); if (o.is_some()) { h.add(o.unwrap()); } } else { auto o = t2.required("abc"); if (o.is_err()) { add_error(h, o.unwrap_err()); } }
        }
        for (unsigned i = 0; i < 256; ++i) { h.add(abnf::is_ALPHA((char)i) + 2 * abnf::is_DIGIT((char)i)); }
        h.add(abnf::eq_string(s, tref::random_case(r, s)));
    }
    return h.get();
}

// What seldom happens: errors of each parser, values out of range, messages that are
// too long, digests that are wrong, missing or cannot be made, thousands of seconds.
inline uint64_t rare_ends(uint64_t seed) {
    Rng r(seed);
    vf::Hash h;
    {
        rtp::PayloadMap map{{rtp::PayloadType::from_uint8(8).unwrap(), rtp::PayloadMapItem{rtp::ClockRate(8000)}}};
        rtp::ParseStat st{};
        for (unsigned k = 0; k < 8; ++k) {
            Bytes p = r.bytes(r.below(r.coin() ? 16 : 40));
            if (p.size() > 1) { p[0] = (uint8_t)(0x80 | (p[0] & 0x3f)); if (r.coin()) { p[1] = (uint8_t)(p[1] & 0x80) | 8; } if (r.coin()) { p.back() = r.coin() ? 0 : 255; } }
            auto m = rtp::Packet::parse(view(p), map, st);
            if (m.is_err()) { add_error(h, m.unwrap_err()); }
        }
        h.add(st.error.count());
    }
    for (unsigned k = 0; k < 4; ++k) {
        unsigned v = (unsigned)(r.u64() >> (32 + r.below(32)));
        auto t = ic::TypePreference::from_unsigned(v & 255);
        auto l = ic::LocalPreference::from_unsigned(v & 0x1ffff);
        auto c = ic::ComponentPreference::from_unsigned(v & 511);
        auto i = ic::ComponentId::from_unsigned(v & 511);
        if (t.is_ok() && l.is_ok() && c.is_ok()) { auto p = ic::Preference{t.unwrap(), l.unwrap(), c.unwrap()}.to_priority(); h.add(p.is_ok()); if (p.is_err()) { add_error(h, p.unwrap_err()); } }
        if (t.is_err()) { add_error(h, t.unwrap_err()); }
        if (l.is_err()) { add_error(h, l.unwrap_err()); }
        if (c.is_err()) { add_error(h, c.unwrap_err()); }
        if (i.is_ok()) { h.add(ic::ComponentPreference::recommended_for(i.unwrap()).value()); } else { add_error(h, i.unwrap_err()); }
        for (std::string s : {std::to_string(v), std::string(r.below(40), 'x'), std::string("candidat:1 1 udp 1 1.1.1.1 1 typ host"), std::string("candidate:1 1 udp 1 1.1.1.1 1 typ host raddr")}) {
            auto x = ic::parse_sdp_attr(s);
            if (x.is_err()) { add_error(h, x.unwrap_err()); }
            auto y = ic::ComponentId::from_string(s);
            if (y.is_err()) { add_error(h, y.unwrap_err()); }
            auto z = ic::Priority::from_string(s);
            if (z.is_err()) { add_error(h, z.unwrap_err()); }
            auto f = ic::Foundation::from_string(s);
            if (f.is_err()) { add_error(h, f.unwrap_err()); }
        }
    }
    { // values of the wrong size
        stun::ParseStat st;
        for (uint16_t t : ref::known_types()) {
            ref::Enc e(ref::msg_type((unsigned)r.below(4), 1), ref::random_tid(r));
            e.attr(t, r.bytes(r.below(30)));
            Bytes p = e.bytes();
            auto m = stun::Message::parse(view(p), st);
            if (m.is_err()) { add_error(h, m.unwrap_err()); } else { h.add(digest(m.unwrap())); }
        }
        for (auto& [n, v] : counters(st)) { h.add(v); }
    }
    { // too long to be built
        stun::AttributeSet set;
        for (unsigned k = 0; k < 1 + r.below(3); ++k) { Bytes v(65000 + r.below(540), 'x'); set.emplace(stun::UnknownAttribute{stun::AttributeType::from_uint16((uint16_t)(0xff00 + k)), view(v)}); }
        if (r.coin()) { set.emplace(stun::Attribute::create(stun::FingerprintAttribute{0})); }
        stun::Message m{stun::Header{stun::Class::request(), stun::Method::binding(), stun::TransactionId(view(r.bytes(12)))}, std::move(set), stun::IsRFC3489{false}, none()};
        auto b = r.coin() ? m.build() : m.build(integrity(r.bytes(100)));
        if (b.is_err()) { add_error(h, b.unwrap_err()); } else { h.add(b.unwrap().size()); }
    }
    { // a hash that fails at times
        auto n = std::make_shared<unsigned>((unsigned)r.below(12));
        crypto::SHA1Hash::Func f = [n](const crypto::SHA1Hash::Input& i) -> crypto::SHA1Hash::Result { if ((*n)-- == 0) { return std::make_error_code(std::errc::io_error); } return crypto::openssl::sha1(i); };
        stun::server::Stateless s{f, none()};
        Bytes key = r.bytes(r.coin() ? 10 : 100);
        s.add_user(precis::OpaqueString{std::string("u")}, password(key));
        for (unsigned k = 0; k < 4; ++k) {
            ref::Enc e(ref::msg_type(r.chance(1, 5) ? 1 : 0, r.chance(1, 5) ? 2 : 1), ref::random_tid(r));
            if (r.chance(1, 4)) { e.attr(0x1234, r.bytes(5)); }
            if (r.chance(3, 4)) { e.attr(ref::A_USERNAME, Bytes{(uint8_t)(r.chance(3, 4) ? 'u' : 'v')}); }
            if (r.chance(3, 4)) { e.integrity(r.chance(2, 3) ? key : r.bytes(3)); }
            Bytes p = e.bytes();
            auto res = s.process(endpoint(ref::random_addr(r), r.coin()), view(p));
            h.add(res.index());
            if (auto* x = std::get_if<stun::server::Stateless::Error>(&res)) { add_error(h, x->error); }
            if (auto* a = std::get_if<stun::server::Stateless::Respond>(&res)) { auto b = a->response.build(a->maybe_integrity); if (b.is_ok()) { h.add(b.unwrap().data(), b.unwrap().size()); } else { add_error(h, b.unwrap_err()); } }
        }
        Bytes x = r.bytes(r.below(100));
        auto d = crypto::openssl::md5({view(x), view(key)});
        if (d.is_ok()) { auto v = d.unwrap().view(); h.add(v.data(), v.size()); }
    }
    { // paths forgotten, answers not to be trusted, server errors until the end
        Settings st;
        st.rc = 3;
        st.rto = 1000;
        st.server_error = r.coin() ? 5000 : -1;
        st.server_error_max = (unsigned)r.below(3);
        st.allow_alternate = r.coin();
        Driver d(st, random_base(r), r.u64());
        std::vector<PathSpec> paths;
        for (unsigned k = 0; k < 3; ++k) { paths.push_back(random_path(r)); }
        for (unsigned k = 0; k < 12; ++k) {
            TxSpec t;
            t.path = r.pick(paths);
            random_auth(r, t);
            h.add((uint64_t)d.create(t));
            d.poll();
            d.now += (us)r.below(900);
            auto& x = d.txns.back();
            Reply p = r.coin() ? success_reply(x, ref::random_addr(r)) : error_reply(x, r.one_of<unsigned>({300, 300, 400, 420, 500, 500, 599, 699}));
            if (p.cls == 3 && r.coin()) { p.attrs.emplace_back(ref::A_ALTERNATE, ref::addr_value(ref::random_addr(r))); }
            if (r.chance(1, 4)) { p.sign = false; }
            if (r.chance(1, 4)) { p.key.push_back(1); }
            for (unsigned i = 0; i < 1 + r.below(4); ++i) { auto e = d.respond(p.bytes(), r.coin()); if (e.is_some()) { add_error(h, e.unwrap()); } d.poll(); d.now += (us)r.below(9000); }
            if (r.chance(1, 4)) { d.now += 400'000'000 + (us)r.below(400'000'000); }
        }
        d.drain();
        for (auto& e : d.trace) { h.add(e.type).add((uint64_t)e.t).add(e.handle).add(e.hash); }
        h.add(d.broken);
    }
    return h.get();
}

struct Task { const char* name; uint64_t (*fn)(uint64_t); };
inline const std::vector<Task>& tasks() {
    static const std::vector<Task> v{{"STUN building", stun_build}, {"STUN parsing", stun_parse}, {"STUN server", stun_server}, {"STUN client", stun_client}, {"RTP", rtp_packets}, {"ICE candidates", ice_candidates},
                                     {"network texts", net_texts}, {"hashes", hashes}, {"clocks", clocks}, {"lists", lists}, {"errors", errors}, {"texts", texts}, {"rare ends", rare_ends}};
    return v;
}

// Objects that pass from thread to thread: made in the first step, used in each of
// them, destroyed with the last. One thread at a time.
struct Relay {
    explicit Relay(uint64_t seed) : r(seed) {}
    virtual ~Relay() = default;
    virtual void step() = 0;
    Rng r;
    vf::Hash h;
};
struct ClientRelay : Relay {
    using Relay::Relay;
    std::unique_ptr<Driver> d;
    struct Mine : util::hash::dynamic::Algorithm<stun::TransactionId> { size_t hash(const stun::TransactionId& t) const noexcept override { return *t.view().begin(); } };
    void step() override {
        if (!d) {
            Settings st;
            st.fingerprint = r.coin();
            st.rto = r.one_of<us>({1000, 500000});
            st.server_error = r.coin() ? 1000000 : -1;
            if (r.coin()) { st.hash = [] { return stun::TransactionIdHash::create<util::hash::dynamic::AlgorithmSingleton<stun::TransactionId, Mine>>(); }; }
            d = std::make_unique<Driver>(st, random_base(r), r.u64());
        }
        for (unsigned k = 0; k < 8; ++k) {
            switch (r.below(4)) {
            case 0: { TxSpec t; t.path = random_path(r); random_auth(r, t); h.add((uint64_t)d->create(t)); break; }
            case 1: if (!d->txns.empty()) { auto e = d->respond(random_reply(r, r.pick(d->txns)).bytes(), r.coin()); if (e.is_some()) { add_error(h, e.unwrap()); } } break;
            case 2: d->now += (us)(r.u64() >> (40 + r.below(24))); break;
            default: d->poll();
            }
        }
        for (auto& e : d->trace) { h.add(e.type).add((uint64_t)e.t).add(e.handle).add(e.hash); }
        h.add(d->broken);
    }
};
struct ServerRelay : Relay {
    using Relay::Relay;
    std::unique_ptr<stun::server::Stateless> s;
    std::vector<std::pair<Bytes, Bytes>> users;
    std::vector<stun::server::Stateless::Respond> answers;
    void step() override {
        if (!s) { s = std::make_unique<stun::server::Stateless>(crypto::openssl::sha1, Maybe<stun::server::Stateless::Settings>{None{}}); }
        users.emplace_back(r.bytes(1 + r.below(12)), r.bytes(r.below(80)));
        s->add_user(precis::OpaqueString{std::string(users.back().first.begin(), users.back().first.end())}, password(users.back().second));
        for (auto& a : answers) { auto b = a.response.build(a.maybe_integrity); if (b.is_ok()) { h.add(b.unwrap().data(), b.unwrap().size()); } }
        for (unsigned k = 0; k < 4; ++k) {
            ref::Enc e(ref::msg_type(0, 1), ref::random_tid(r));
            if (r.chance(1, 5)) { e.attr(0x7777, r.bytes(3)); }
            auto& u = r.pick(users);
            if (r.chance(3, 4)) { e.attr(ref::A_USERNAME, u.first).integrity(r.chance(4, 5) ? u.second : r.bytes(4)); }
            Bytes p = e.bytes();
            auto res = s->process(endpoint(ref::random_addr(r), r.coin()), view(p));
            h.add(res.index());
            if (auto* a = std::get_if<stun::server::Stateless::Respond>(&res)) { h.add(digest(a->response)); answers.push_back(std::move(*a)); }
        }
    }
};
struct ErrorRelay : Relay {
    using Relay::Relay;
    std::vector<freewebrtc::Error> kept;
    template<typename E> void one(E e) {
        auto c = make_error_code(e);
        for (auto& k : kept) { h.add(k == c); }
        kept.push_back(c);
    }
    void step() override {
        for (auto& k : kept) { add_error(h, k); }
        one((stun::ParseError)r.below(21));
        one((stun::ClientError)r.below(7));
        one((net::Error)r.below(6));
        one((rtp::Error)r.below(7));
        one((ic::Error)r.below(15));
        if (kept.size() > 30) { kept.erase(kept.begin(), kept.begin() + 10); }
    }
};
struct MessageRelay : Relay {
    using Relay::Relay;
    std::vector<stun::Message> kept;
    stun::ParseStat st;
    void step() override {
        for (unsigned k = 0; k < 4; ++k) {
            Bytes p = ref::random_message(r).packet;
            auto m = stun::Message::parse(view(p), st);
            if (m.is_ok()) { kept.push_back(std::move(m.unwrap())); }
        }
        for (auto& m : kept) { h.add(digest(m)); auto b = m.build(); if (b.is_ok()) { h.add(b.unwrap().data(), b.unwrap().size()); } }
        if (kept.size() > 12) { kept.erase(kept.begin(), kept.begin() + 6); }
        for (auto& [n, v] : counters(st)) { h.add(v); }
    }
};
struct OtherRelay : Relay {
    using Relay::Relay;
    struct Clk {
        using rep = int64_t; using period = std::nano; using duration = std::chrono::duration<rep, period>; using time_point = std::chrono::time_point<Clk>;
        static constexpr bool is_steady = true;
        static int64_t& value() { static thread_local int64_t v = 0; return v; } // of the harness: set before each reading
        static time_point now() { return time_point(duration(value())); }
    };
    int64_t t = 1;
    std::unique_ptr<clock::ChronoClockConverter<Clk>> conv;
    std::vector<std::unique_ptr<Item>> items;
    std::unique_ptr<util::IntrusiveList<Item>> list;
    std::unique_ptr<rtp::PayloadMap> map;
    rtp::ParseStat st{};
    freewebrtc::stat::Counter counter;
    std::vector<stun::TransactionIdHash> hashes;
    std::vector<ic::SDPAttrParseResult> candidates;
    void step() override {
        Clk::value() = t;
        if (!conv) {
            conv = std::make_unique<clock::ChronoClockConverter<Clk>>();
            list = std::make_unique<util::IntrusiveList<Item>>(&Item::link);
            map = std::make_unique<rtp::PayloadMap>(std::initializer_list<rtp::PayloadMap::InitPair>{{rtp::PayloadType::from_uint8(8).unwrap(), rtp::PayloadMapItem{rtp::ClockRate(8000)}}});
        }
        for (unsigned k = 0; k < 5; ++k) { t += (int64_t)r.below(5000); Clk::value() = t; h.add((uint64_t)(conv->now() - clock::Timepoint::epoch()).count()); }
        items.push_back(std::make_unique<Item>((int)items.size()));
        if (r.coin()) { list->push_back(*items.back()); } else { list->push_front(*items.back()); }
        if (r.chance(1, 3)) { items[r.below(items.size())]->link.remove(); }
        h.add(list->empty());
        if (!list->empty()) { h.add((uint64_t)list->front().unwrap().get().id).add((uint64_t)list->back().unwrap().get().id); }
        Bytes p = r.bytes(12 + r.below(30));
        p[0] = 0x80; p[1] = 8;
        h.add(rtp::Packet::parse(view(p), *map, st).is_ok()).add(st.success.count());
        counter.inc();
        h.add(counter.count());
        hashes.push_back(stun::MurmurTransactionIdHash<>::create());
        Bytes tid = ref::random_tid(r);
        stun::TransactionId id(view(tid));
        for (auto& f : hashes) { h.add(f(id)); }
        auto c = ic::parse_sdp_attr("candidate:" + std::to_string(r.u32()) + " 1 udp 5 10.0.0.1 99 typ host");
        if (c.is_ok()) { candidates.push_back(std::move(c.unwrap())); }
        for (auto& x : candidates) { if (auto* s = std::get_if<ic::Supported>(&x)) { h.add(s->candidate.foundation.to_string()); add_address(h, s->candidate.address); } }
    }
};
struct RelayKind { const char* name; std::unique_ptr<Relay> (*make)(uint64_t); };
inline const std::vector<RelayKind>& relays() {
#define R(n, T) {n, [](uint64_t s) -> std::unique_ptr<Relay> { return std::make_unique<T>(s); }}
    static const std::vector<RelayKind> v{R("STUN client", ClientRelay), R("STUN server", ServerRelay), R("errors", ErrorRelay), R("STUN messages", MessageRelay), R("clock, list, RTP, hash and candidates", OtherRelay)};
#undef R
    return v;
}

}
