// P44: values are values: a copy or a moved value says what the original said, and
// goes its own way from then on.
#include "workout.hpp"
#include "util/util_parse_result.hpp"

namespace {

using namespace cl;
namespace ic = freewebrtc::ice::candidate;

uint64_t d_message(const stun::Message& m) {
    vf::Hash h;
    h.add(digest(m));
    if (m.integrity_interval.is_some()) { auto i = m.integrity_interval.unwrap(); h.add(i.offset).add(i.count); }
    auto b = m.build();
    if (b.is_ok()) { h.add(b.unwrap().data(), b.unwrap().size()); } else { work::add_error(h, b.unwrap_err()); }
    return h.get();
}
uint64_t d_ip(const net::ip::Address& a) { vf::Hash h; h.add(ip_bytes(a)).add(net::ip::AddressHash{}(a)); auto t = a.to_string(); if (t.is_ok()) { h.add(t.unwrap()); } return h.get(); }
uint64_t d_password(const stun::Password& p) { return vf::Hash().add(p.ipad().view().data(), 64).add(p.opad().view().data(), 64).get(); }
uint64_t d_integrity(const stun::IntegrityData& i) {
    vf::Hash h;
    h.add(d_password(i.password));
    auto r = i.hash({i.password.ipad().view()});
    if (r.is_ok()) { auto v = r.unwrap().view(); h.add(v.data(), v.size()); }
    return h.get();
}
uint64_t d_attribute(const stun::Attribute& a) {
    stun::AttributeSet s;
    s.emplace(stun::Attribute(a));
    stun::Message m{stun::Header{stun::Class::success_response(), stun::Method::binding(), stun::TransactionId(view(Bytes(12, 3)))}, std::move(s), stun::IsRFC3489{false}, none()};
    return vf::Hash().add(a.type().value()).add(a.value().index()).add(d_message(m)).get();
}
uint64_t d_candidate(const ic::Candidate& c) {
    vf::Hash h;
    h.add(c.foundation.to_string()).add(c.component.value()).add(c.transport_type.to_string()).add(c.port.value()).add(c.type.to_string());
    work::add_address(h, c.address);
    h.add(c.maybe_related_address.is_some()).add(c.maybe_related_port.is_some());
    if (c.maybe_related_address.is_some()) { work::add_address(h, c.maybe_related_address.unwrap()); }
    if (c.maybe_related_port.is_some()) { h.add(c.maybe_related_port.unwrap().value()); }
    return h.get();
}
uint64_t d_result(const ic::SDPAttrParseResult& r) {
    vf::Hash h;
    h.add(r.index());
    if (auto* s = std::get_if<ic::Supported>(&r)) { h.add(d_candidate(s->candidate)); for (auto& e : s->extensions) { h.add(e.att_name).add(e.att_value); } }
    else if (auto* u = std::get_if<ic::Unsupported>(&r)) { h.add(u->value); }
    return h.get();
}
uint64_t d_packet(const rtp::Packet& q) {
    vf::Hash h;
    h.add((bool)q.header.marker).add(q.header.payload_type.value()).add(q.header.sequence.value()).add(q.header.ssrc.value()).add(q.header.timestamp.value()).add(q.payload.offset).add(q.payload.count);
    h.add(q.header.csrcs.size());
    for (auto& s : q.header.csrcs) { h.add(s.value()); }
    if (q.header.maybe_extension.is_some()) { auto& y = q.header.maybe_extension.unwrap(); h.add(y.profile_defined).add(y.data.offset).add(y.data.count); }
    return h.get();
}
uint64_t d_map(const rtp::PayloadMap& m) {
    vf::Hash h;
    for (unsigned i = 0; i < 128; ++i) { auto x = m.rtp_clock_rate(rtp::PayloadType::from_uint8((uint8_t)i).unwrap()); h.add(x.is_some() ? x.unwrap().count() + 1ull : 0); }
    return h.get();
}
uint64_t d_error(const freewebrtc::Error& e) { vf::Hash h; work::add_error(h, e); h.add((uint64_t)e.value()); return h.get(); }
uint64_t d_tid_hash(const stun::TransactionIdHash& f) {
    vf::Hash h;
    for (uint8_t i = 0; i < 8; ++i) { h.add(f(stun::TransactionId(view(Bytes(12, i))))); }
    return h.get();
}
// A client with these settings, by what it does.
uint64_t d_settings(const Client::Settings& s) {
    Client cl(s);
    Words w(5);
    vf::Hash h;
    us now = 0;
    Client::Request rq{net::Path{address({1, 2, 3, 4}), address({5, 6, 7, 8})}, {}, {}};
    auto r = cl.create(w, at(0, 0), std::move(rq));
    Bytes tid = w.last_id();
    for (unsigned k = 0; k < 60; ++k) {
        auto e = cl.next(at(0, now));
        h.add(e.index()).add((uint64_t)now);
        if (auto* d = std::get_if<Client::SendData>(&e)) { h.add(d->message_view.data(), d->message_view.size()); }
        if (auto* sl = std::get_if<Client::Sleep>(&e)) { now += sl->sleep.count(); }
        if (k == 3) { Txn t; t.tid = tid; Bytes p = error_reply(t, 500).bytes(); (void)cl.response(at(0, now), view(p)); }
        if (std::holds_alternative<Client::Idle>(e)) { break; }
    }
    return h.get();
}
uint64_t d_effect(const Client::Effect& e) {
    vf::Hash h;
    h.add(e.index());
    if (auto* s = std::get_if<Client::SendData>(&e)) { h.add(s->handle.value).add(s->message_view.data(), s->message_view.size()); }
    if (auto* o = std::get_if<Client::TransactionOk>(&e)) { h.add(o->handle.value).add(outcome_of(*o).hash()); }
    if (auto* f = std::get_if<Client::TransactionFailed>(&e)) { h.add(f->handle.value).add(outcome_of(*f).hash()); }
    if (auto* s = std::get_if<Client::Sleep>(&e)) { h.add((uint64_t)s->sleep.count()); }
    return h.get();
}
uint64_t d_stream(const util::TokenStream& s) {
    util::TokenStream t(s); // reading changes it
    vf::Hash h;
    while (true) { auto o = t.optional(); if (o.is_none()) { break; } h.add(o.unwrap()); }
    return h.get();
}
uint64_t d_stat(const stun::ParseStat& s) { vf::Hash h; for (auto& [n, v] : counters(s)) { h.add(v); } return h.get(); }

stun::Attribute::Value random_value(Rng& r) {
    std::string text = tref::random_text(r, r.below(60), "abcdefgh");
    ref::Addr a = ref::random_addr(r);
    switch (r.below(11)) {
    case 0: return stun::UsernameAttribute{precis::OpaqueString{text}};
    case 1: return stun::SoftwareAttribute{text};
    case 2: return stun::MappedAddressAttribute{address(a.ip), net::Port(a.port)};
    case 3: return stun::XorMappedAddressAttribute{stun::XoredAddress::from_address(address(a.ip), stun::TransactionId(view(r.bytes(12)))), net::Port(a.port)};
    case 4: return stun::AlternateServerAttribute{address(a.ip), net::Port(a.port)};
    case 5: return stun::PriorityAttribute{r.u32()};
    case 6: return stun::IceControlledAttribute{r.u64()};
    case 7: return stun::IceControllingAttribute{r.u64()};
    case 8: return stun::UseCandidateAttribute{};
    case 9: return stun::ErrorCodeAttribute{(unsigned)r.range(300, 699), r.coin() ? Maybe<std::string>(text) : Maybe<std::string>(None{})};
    default: { stun::UnknownAttributesAttribute u; for (unsigned i = 0; i < r.below(40); ++i) { u.types.push_back(stun::AttributeType::from_uint16((uint16_t)r.u32())); } return u; }
    }
}
stun::Message random_message(Rng& r) {
    while (true) {
        Bytes p = ref::random_message(r).packet;
        stun::ParseStat st;
        auto m = stun::Message::parse(view(p), st);
        if (m.is_ok()) { return std::move(m.unwrap()); } // moved: a copy is what is examined
    }
}
ic::SDPAttrParseResult random_result(Rng& r) {
    while (true) {
        std::string s = "candidate:" + std::to_string(r.u32()) + " " + std::to_string(1 + r.below(256)) + " " + r.one_of<std::string>({"UDP", "udp", "tcp"}) + " " + std::to_string(1 + r.below(0xffffffff)) + " " +
            (r.coin() ? tref::random_ip_text(r) : tref::random_fqdn(r)) + " " + std::to_string(r.below(65536)) + " typ " + r.one_of<std::string>({"host", "srflx", "PRFLX", "relay"});
        if (r.coin()) { s += " raddr " + (r.coin() ? tref::random_ip_text(r) : tref::random_fqdn(r)); }
        if (r.coin()) { s += " rport " + std::to_string(r.below(65536)); }
        while (r.chance(2, 3)) { s += " name" + std::to_string(r.below(10)) + " value-that-is-long-enough-" + std::to_string(r.below(1000000)); }
        auto p = ic::parse_sdp_attr(s);
        if (p.is_ok()) { return std::move(p.unwrap()); }
    }
}
ic::Candidate random_candidate(Rng& r) {
    while (true) { auto x = random_result(r); if (auto* s = std::get_if<ic::Supported>(&x)) { return std::move(s->candidate); } }
}
rtp::Packet random_packet(Rng& r) {
    rtp::PayloadMap map{{rtp::PayloadType::from_uint8(8).unwrap(), rtp::PayloadMapItem{rtp::ClockRate(8000)}}};
    while (true) {
        Bytes p = r.bytes(12 + r.below(100));
        p[0] = (uint8_t)(0x80 | (p[0] & 0x1f)); p[1] = (uint8_t)((p[1] & 0x80) | 8);
        size_t e = 12 + 4 * (p[0] & 15u);
        if (e + 4 <= p.size()) { p[e + 2] = 0; p[e + 3] &= 3; }
        rtp::ParseStat st{};
        auto q = rtp::Packet::parse(view(p), map, st);
        if (q.is_ok()) { return std::move(q.unwrap()); }
    }
}
freewebrtc::Error random_error(Rng& r) {
    switch (r.below(5)) {
    case 0: return freewebrtc::Error(make_error_code((stun::ParseError)r.below(21)));
    case 1: return freewebrtc::Error(make_error_code((stun::ClientError)r.below(7)));
    case 2: return freewebrtc::Error(make_error_code((net::Error)r.below(6)));
    case 3: return freewebrtc::Error(make_error_code((rtp::Error)r.below(7)));
    default: return freewebrtc::Error(make_error_code((ic::Error)r.below(15)));
    }
}
Client::Settings random_settings(Rng& r) {
    Settings s;
    s.fingerprint = r.coin();
    s.rc = (unsigned)r.below(9);
    s.rm = 1 + (unsigned)r.below(20);
    s.rto = 1000 + (us)r.below(1000000);
    s.max_rto = r.coin() ? s.rto + (us)r.below(4000000) : 0;
    s.server_error = r.coin() ? (us)r.below(2000000) : -1;
    s.server_error_max = (unsigned)r.below(6);
    s.allow_alternate = r.coin();
    return s.get();
}
Client::Effect random_effect(Rng& r) {
    switch (r.below(5)) {
    case 0: { ref::Addr a = ref::random_addr(r); return Client::TransactionOk{Client::Handle{r.u32()}, net::UdpEndpoint{address(a.ip), net::Port(a.port)}, random_message(r), r.coin() ? Maybe<Client::Effect>(None{}).is_some() ? Maybe<clock::NativeDuration>(None{}) : Maybe<clock::NativeDuration>(dur((us)r.below(1000000))) : Maybe<clock::NativeDuration>(None{})}; }
    case 1: { std::vector<stun::AttributeType> v; for (unsigned i = 0; i < r.below(30); ++i) { v.push_back(stun::AttributeType::from_uint16((uint16_t)r.u32())); } return Client::TransactionFailed{Client::Handle{r.u32()}, Client::TransactionFailed::UnknownAttributeReported{v}}; }
    case 2: { ref::Addr a = ref::random_addr(r); return Client::TransactionFailed{Client::Handle{r.u32()}, Client::TransactionFailed::AlternateServer{{address(a.ip), net::Port(a.port)}}}; }
    case 3: return Client::TransactionFailed{Client::Handle{r.u32()}, Client::TransactionFailed::ErrorCode{stun::ErrorCodeAttribute{(unsigned)r.range(300, 599), std::string("phrase that is long enough to live on the heap")}}};
    default: return Client::Sleep{dur((us)r.below(1000000))};
    }
}

// make: a random value; dig: what it says.
template<typename T, typename M, typename D> void values(vf::Ctx& c, const char* name, M&& make, D&& dig) {
    auto& r = c.rng;
    auto fill = [](std::byte* p, size_t n) { std::memset((void*)p, 0xA5, n); };
    struct Slot { // memory of one object, exactly
        std::byte* p = (std::byte*)::operator new(sizeof(T), std::align_val_t(alignof(T)));
        ~Slot() { ::operator delete(p, std::align_val_t(alignof(T))); }
    };
    auto a = std::make_unique<T>(make(r));
    const uint64_t da = dig(*a);
    auto again = [&](const char* what, uint64_t got, uint64_t want) { CHECK(got == want, "value", name << ": " << what << " changes what the value says"); EV("values compared"); };
    again("looking at it", dig(*a), da);
    auto o = std::make_unique<T>(make(r));
    const uint64_t dob = dig(*o);
    if constexpr (std::is_copy_constructible_v<T>) {
        std::unique_ptr<T> b;
        {
            Slot s; // the original is destroyed and its memory overwritten
            T* t = new (s.p) T(*a);
            again("being copied (the copy)", dig(*t), da);
            again("being copied (the original)", dig(*a), da);
            b = std::make_unique<T>(*t);
            t->~T();
            fill(s.p, sizeof(T));
        }
        again("the end of the original", dig(*b), da);
        { // the end of a copy
            T t(*b);
            (void)dig(t);
        }
        again("the end of a copy", dig(*b), da);
        { // with the whole vector moving
            std::vector<T> v;
            std::vector<uint64_t> d;
            for (unsigned i = 0; i < 1 + r.below(9); ++i) { v.push_back(i % 2 ? *a : *o); d.push_back(i % 2 ? da : dob); }
            for (size_t i = 0; i < v.size(); ++i) { again("growth of a vector", dig(v[i]), d[i]); }
        }
        if constexpr (std::is_copy_assignable_v<T>) {
            *b = *o;
            again("copy assignment (target)", dig(*b), dob);
            again("copy assignment (source)", dig(*o), dob);
            *b = *a;
            again("copy assignment of another value", dig(*b), da);
            T& self = *b;
            *b = self;
            again("self assignment", dig(*b), da);
            {
                auto t = std::make_unique<T>(*o);
                *b = *t;
                t.reset();
            }
            again("the end of the source of an assignment", dig(*b), dob);
            EV("copy assignments");
        }
        EV("copies");
    }
    if constexpr (std::is_move_constructible_v<T>) {
        T m(std::move(*a));
        again("move construction", dig(m), da);
        if constexpr (std::is_move_assignable_v<T>) {
            if constexpr (std::is_copy_constructible_v<T>) {
                T k(m);
                *a = std::move(k);
                again("move assignment to a value that was moved from", dig(*a), da);
                again("move assignment (others)", dig(m), da);
                T x(*o), y(m);
                std::swap(x, y);
                again("swap (first)", dig(x), da);
                again("swap (second)", dig(y), dob);
            }
            m = std::move(*o);
            again("move assignment", dig(m), dob);
            EV("move assignments");
        }
        a.reset(); // what was moved from can be destroyed
        o.reset();
        again("the end of what was moved from", dig(m), std::is_move_assignable_v<T> ? dob : da);
        EV("moves");
    }
    c.distinct(vf::Hash().add(da).add(dob).add(std::string(name)));
    vf::ev(std::string("value: ") + name);
}

}

GROUP("P44", "values", 22 * 120, 22 * 6000) {
    switch (c.idx % 22) {
    case 0: values<stun::Message>(c, "message", random_message, d_message); break;
    case 1: values<stun::AttributeSet>(c, "attribute set", [](Rng& r) { auto m = random_message(r); return std::move(m.attribute_set); }, [](const stun::AttributeSet& s) {
        stun::Header h{stun::Class::success_response(), stun::Method::binding(), stun::TransactionId(view(Bytes(12, 3)))};
        auto b = s.build(h, none()); // not copied
        return b.is_ok() ? vf::Hash().add(b.unwrap().data(), b.unwrap().size()).add(types(s.unknown_comprehension_required()).size()).get() : d_error(b.unwrap_err()); }); break;
    case 2: values<stun::Attribute>(c, "attribute", [](Rng& r) { return stun::Attribute::create(random_value(r)); }, d_attribute); break;
    case 3: values<stun::TransactionId>(c, "transaction id", [](Rng& r) { return stun::TransactionId(view(r.bytes(r.coin() ? 12 : 16))); }, [](const stun::TransactionId& t) { return vf::Hash().add(bytes(t.view())).get(); }); break;
    case 4: values<stun::UnknownAttribute>(c, "unknown attribute", [](Rng& r) { return stun::UnknownAttribute{stun::AttributeType::from_uint16((uint16_t)r.u32()), view(r.bytes(r.below(60)))}; }, [](const stun::UnknownAttribute& u) { return vf::Hash().add(u.type.value()).add(u.data.data(), u.data.size()).get(); }); break;
    case 5: values<stun::Password>(c, "password", [](Rng& r) { return password(r.bytes(r.below(100))); }, d_password); break;
    case 6: values<stun::IntegrityData>(c, "integrity data", [](Rng& r) { return integrity(r.bytes(r.below(100))); }, d_integrity); break;
    case 7: values<net::ip::Address>(c, "address", [](Rng& r) { return address(r.bytes(r.coin() ? 4 : 16)); }, d_ip); break;
    case 8: values<net::Path>(c, "path", [](Rng& r) { return net::Path{address(r.bytes(r.coin() ? 4 : 16)), address(r.bytes(r.coin() ? 4 : 16))}; }, [](const net::Path& p) { return vf::Hash().add(d_ip(p.source)).add(d_ip(p.target)).add(net::PathHash{}(p)).get(); }); break;
    case 9: values<net::Endpoint>(c, "endpoint", [](Rng& r) { return endpoint(ref::random_addr(r), r.coin()); }, [](const net::Endpoint& e) { return vf::Hash().add(e.is_udp()).add(d_ip(e.address())).add(e.port().value()).get(); }); break;
    case 10: values<net::Fqdn>(c, "name", [](Rng& r) { while (true) { auto f = net::Fqdn::from_string(tref::random_fqdn(r)); if (f.is_ok()) { return std::move(f.unwrap()); } } }, [](const net::Fqdn& f) { return vf::Hash().add(f.to_string()).get(); }); break;
    case 11: values<ic::Candidate>(c, "candidate", random_candidate, d_candidate); break;
    case 12: values<ic::SDPAttrParseResult>(c, "candidate line", random_result, d_result); break;
    case 13: values<rtp::Packet>(c, "RTP packet", random_packet, d_packet); break;
    case 14: values<rtp::PayloadMap>(c, "payload map", [](Rng& r) {
        auto p = [&] { return rtp::PayloadMap::InitPair{rtp::PayloadType::from_uint8((uint8_t)r.below(128)).unwrap(), rtp::PayloadMapItem{rtp::ClockRate(r.u32())}}; };
        return rtp::PayloadMap{p(), p(), p(), p(), p()}; }, d_map); break;
    case 15: values<freewebrtc::Error>(c, "error", random_error, d_error); break;
    case 16: values<stun::TransactionIdHash>(c, "hash of ids", [](Rng& r) {
        struct Other { size_t operator()() { return 0x1234567; } };
        return r.coin() ? stun::MurmurTransactionIdHash<>::create() : stun::MurmurTransactionIdHash<Other>::create(); }, d_tid_hash); break;
    case 17: values<Client::Settings>(c, "settings of the client", random_settings, d_settings); break;
    case 18: values<Client::Effect>(c, "effect", random_effect, d_effect); break;
    case 19: { static const std::string text = "one two three four five six"; values<util::TokenStream>(c, "token stream", [](Rng& r) {
        auto v = util::string_view::split_all(std::string_view(text).substr(r.below(20)), ' '); return util::TokenStream(std::move(v)); }, d_stream); break; }
    case 20: values<crypto::SHA1Hash>(c, "digest", [](Rng& r) { Bytes b = r.bytes(20); return crypto::SHA1Hash::from_view(view(b)).unwrap(); }, [](const crypto::SHA1Hash& h) { return vf::Hash().add(h.view().data(), 20).add(h.value().data(), 20).get(); }); break;
    default: values<clock::Timepoint>(c, "timepoint", [](Rng& r) { return at(r.u64(), 0); }, [](const clock::Timepoint& t) { return vf::Hash().add((uint64_t)(t - clock::Timepoint::epoch()).count()).get(); }); break;
    }
}

// Changing one leaves the other.
GROUP("P44", "changes", 8 * 150, 8 * 6000) {
    auto& r = c.rng;
    auto check = [&](const char* name, bool ok) { CHECK(ok, "shared", name << ": a change of one of two copies shows in the other"); EV("changes of copies"); vf::ev(std::string("changed: ") + name); };
    switch (c.idx % 8) {
    case 0: { // attribute sets
        stun::Message a = random_message(r), b = a;
        uint64_t d = d_message(a);
        b.attribute_set.emplace(stun::UnknownAttribute{stun::AttributeType::from_uint16(0x7123), view(r.bytes(5))});
        for (unsigned i = 0; i < 4; ++i) { b.attribute_set.emplace(stun::Attribute::create(random_value(r))); }
        b.header.transaction_id = stun::TransactionId(view(r.bytes(12)));
        check("message", d_message(a) == d && d_message(b) != d);
        uint64_t e = d_message(b);
        a.attribute_set.emplace(stun::UnknownAttribute{stun::AttributeType::from_uint16(0x7124), view(r.bytes(6))});
        check("message", d_message(b) == e);
        break;
    }
    case 1: { // counters
        stun::ParseStat a{};
        for (unsigned i = 0; i < 5; ++i) { Bytes p = r.bytes(r.below(60)); (void)stun::Message::parse(view(p), a); }
        stun::ParseStat b = a;
        uint64_t d = d_stat(a);
        for (unsigned i = 0; i < 3; ++i) { Bytes p = ref::random_message(r).packet; (void)stun::Message::parse(view(p), b); }
        check("counters", d_stat(a) == d && d_stat(b) != d);
        a.error.inc();
        check("counters", b.error.count() + b.success.count() == 8);
        break;
    }
    case 2: { // token streams
        static const std::string text = "one two three four five six";
        util::TokenStream a(util::string_view::split_all(std::string_view(text), ' '));
        for (unsigned i = 0; i < r.below(5); ++i) { (void)a.optional(); }
        util::TokenStream b = a;
        uint64_t d = d_stream(a);
        for (unsigned i = 0; i < 1 + r.below(3); ++i) { (void)b.required(); }
        check("token stream", d_stream(a) == d);
        break;
    }
    case 3: { // servers
        using S = stun::server::Stateless;
        S a{crypto::openssl::sha1};
        auto user = [&](S& s, const char* n, uint8_t k) { s.add_user(precis::OpaqueString{n}, password({k})); };
        auto knows = [&](S& s, const char* n, uint8_t k) {
            ref::Enc e(ref::msg_type(0, 1), ref::random_tid(r));
            e.attr(ref::A_USERNAME, ref::bytes_of(std::string(n))).integrity(Bytes{k});
            Bytes p = e.bytes();
            auto res = s.process(endpoint(ref::random_addr(r)), view(p));
            auto* x = std::get_if<S::Respond>(&res);
            return x && x->response.header.cls == stun::Class::success_response();
        };
        user(a, "first", 1);
        if constexpr (std::is_copy_constructible_v<S>) {
            auto b = std::make_unique<S>(a);
            user(*b, "second", 2);
            check("server", knows(a, "first", 1) && knows(*b, "first", 1) && knows(*b, "second", 2) && !knows(a, "second", 2));
            user(a, "third", 3);
            check("server", !knows(*b, "third", 3) && knows(a, "third", 3));
            b.reset();
            check("server", knows(a, "first", 1) && knows(a, "third", 3));
        }
        break;
    }
    case 4: { // clients with the same settings
        Settings st;
        st.rto = 1000;
        const Client::Settings s = st.get();
        Client x(s);
        auto y = std::make_unique<Client>(s);
        Words w(r.u64());
        auto rq = [] { return Client::Request{net::Path{address({1, 2, 3, 4}), address({5, 6, 7, 8})}, {}, {}}; };
        auto h = x.create(w, at(0, 0), rq());
        Bytes tid = w.last_id();
        check("client", h.is_ok() && std::holds_alternative<Client::Idle>(y->next(at(0, 0))));
        Txn t; t.tid = tid;
        Bytes p = success_reply(t, ref::Addr{{1, 1, 1, 1}, 1}).bytes();
        check("client", y->response(at(0, 5), view(p)).is_err());
        y.reset();
        check("client", std::holds_alternative<Client::SendData>(x.next(at(0, 5))) && x.response(at(0, 9), view(p)).is_ok());
        // The round trip of one does not matter to the other.
        x.next(at(0, 9));
        Client z(s);
        z.create(w, at(0, 10), rq());
        z.next(at(0, 10));
        auto e = z.next(at(0, 10));
        auto* sl = std::get_if<Client::Sleep>(&e);
        check("client", sl && sl->sleep.count() == 1000);
        break;
    }
    case 5: { // settings after the client was made
        Settings st;
        st.rto = 1000 + (us)r.below(1000);
        Client::Settings s = st.get();
        Client x(s);
        s.rto_settings.initial_rto = dur(77);
        s.use_fingerprint = Client::Settings::UseFingerprint{false};
        Words w(r.u64());
        x.create(w, at(0, 0), Client::Request{net::Path{address({1, 2, 3, 4}), address({5, 6, 7, 8})}, {}, {}});
        auto e = x.next(at(0, 0));
        auto* d = std::get_if<Client::SendData>(&e);
        auto f = x.next(at(0, 0));
        auto* sl = std::get_if<Client::Sleep>(&f);
        check("settings", d && d->message_view.size() == 28 && sl && sl->sleep.count() == st.rto);
        break;
    }
    case 6: { // clock converters
        using C = clock::ChronoClockConverter<std::chrono::steady_clock>;
        if constexpr (std::is_copy_constructible_v<C>) {
            C a;
            auto t0 = a.now();
            C b = a;
            for (unsigned i = 0; i < 20; ++i) { (void)b.now(); }
            auto t1 = a.now(), t2 = b.now();
            auto gap = (t2 - t1).count();
            check("clock", !t1.is_before(t0) && gap >= -2000000 && gap < 2000000);
        }
        break;
    }
    default: { // errors with context
        freewebrtc::Error a = random_error(r), b = a;
        std::string m = a.message();
        b.add_context("note", 5);
        check("error", a.message() == m && b.code() == a.code());
        b = freewebrtc::Error(make_error_code(net::Error::invalid_address_size));
        check("error", a.message() == m);
    }
    }
    c.distinct(vf::Hash().add(r.u64()).add(c.idx % 8));
}

// What a parser returned depends on neither its input nor its other results.
GROUP("P44", "results", 500, 20000) {
    auto& r = c.rng;
    struct One { stun::Message m; uint64_t d; };
    std::deque<One> kept;
    stun::ParseStat st;
    Bytes buffer(70000);
    for (unsigned k = 0; k < 12; ++k) { // one receive buffer for all
        Bytes p = ref::random_message(r).packet;
        std::copy(p.begin(), p.end(), buffer.begin());
        auto m = stun::Message::parse(View(buffer.data(), p.size()), st);
        if (m.is_ok()) { auto d = d_message(m.unwrap()); kept.push_back(One{std::move(m.unwrap()), d}); }
        if (kept.size() > 4 && r.coin()) { kept.erase(kept.begin() + (long)r.below(kept.size())); }
        if (kept.size() > 1 && r.coin()) { std::swap(kept[0], kept.back()); }
        if (kept.size() > 1 && r.chance(1, 4)) { kept[0] = kept.back(); }
        for (auto& o : kept) { CHECK(d_message(o.m) == o.d, "buffer", "a message changes when the buffer it was received in is used again"); EV("messages kept"); }
    }
    c.distinct(vf::Hash().add(r.u64()));
}
