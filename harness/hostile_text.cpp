// P40: hostile text through all parsers of text, in buffers of the exact size.
#include "stunlib.hpp"
#include "textref.hpp"
#include "worktime.hpp"
#include "net/net_fqdn.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "ice/candidate/ice_candidate_preference.hpp"
#include "abnf/abnf.hpp"

using namespace lib;
namespace ic = freewebrtc::ice::candidate;

namespace {

uint64_t digest(const ic::Address& a) {
    vf::Hash h;
    if (a.as_ip_address().is_some()) { h.add(ip_bytes(a.as_ip_address().unwrap().get())); }
    if (a.as_fqdn().is_some()) { h.add(a.as_fqdn().unwrap().get().to_string()); }
    auto t = a.to_string();
    if (t.is_ok()) { h.add(t.unwrap()); }
    return h.get();
}
uint64_t digest(const ic::SDPAttrParseResult& r) {
    vf::Hash h;
    if (auto* u = std::get_if<ic::Unsupported>(&r)) { h.add(u->value); return h.get(); }
    auto& s = std::get<ic::Supported>(r);
    auto& k = s.candidate;
    h.add(k.foundation.to_string()).add(k.component.value()).add(k.transport_type.to_string()).add(digest(k.address)).add(k.port.value()).add(k.type.to_string());
    if (k.maybe_related_address.is_some()) { h.add(digest(k.maybe_related_address.unwrap())); }
    if (k.maybe_related_port.is_some()) { h.add(k.maybe_related_port.unwrap().value()); }
    for (auto& e : s.extensions) { h.add(e.att_name).add(e.att_value); }
    return h.get();
}

// What every parser makes of a text.
struct Results {
    Result<ic::SDPAttrParseResult> cand;
    Result<net::Fqdn> name;
    decltype(net::Fqdn::parse(std::string_view())) part;
    Result<net::ip::Address> ip;
    Result<ic::Address> addr;
    Result<net::Port> port;
    Result<ic::Foundation> fnd;
    Result<ic::ComponentId> comp;
    Result<ic::Priority> prio;
    Result<ic::Type> type;
    Result<ic::TransportType> trans;
    explicit Results(std::string_view v)
        : cand(ic::parse_sdp_attr(v)), name(net::Fqdn::from_string(v)), part(net::Fqdn::parse(v)), ip(net::ip::Address::from_string(v)), addr(ic::Address::from_string(v)), port(net::Port::from_string(v)),
          fnd(ic::Foundation::from_string(v)), comp(ic::ComponentId::from_string(v)), prio(ic::Priority::from_string(v)), type(ic::Type::from_string(v)), trans(ic::TransportType::from_string(v)) {}
    uint64_t hash() {
        vf::Hash h;
        auto add = [&](auto& r, auto&& f) { h.add(r.is_ok()); if (r.is_ok()) { f(r.unwrap()); } else { h.add(r.unwrap_err().message()).add(std::string(r.unwrap_err().category().name())); } };
        add(cand, [&](auto& y) { h.add(digest(y)); });
        add(name, [&](auto& y) { h.add(y.to_string()); });
        add(part, [&](auto& y) { h.add(y.value.to_string()); });
        add(ip, [&](auto& y) { h.add(ip_bytes(y)); });
        add(addr, [&](auto& y) { h.add(digest(y)); });
        add(port, [&](auto& y) { h.add(y.value()); });
        add(fnd, [&](auto& y) { h.add(y.to_string()); });
        add(comp, [&](auto& y) { h.add(y.value()); });
        add(prio, [&](auto& y) { h.add(y == ic::Priority::from_uint32(1).unwrap()); });
        add(type, [&](auto& y) { h.add(y.to_string()); });
        add(trans, [&](auto& y) { h.add(y.to_string()); });
        return h.get();
    }
};

// What stands behind and before the text has no influence.
void surround(vf::Ctx& c, std::string_view s, uint64_t want) {
    static const char* const after[] = {"0", "7", "9999999999", "a", "f", ".", ":", "::", ".1", ":1", "-", "-a", ".a", " ", " typ host", "\xff", "%", "/", "+"};
    static const char* const before[] = {"", "1", "a", ".", ":", "-", " ", "candidate:"};
    std::string b = before[c.rng.below(8)], a = after[c.rng.below(19)];
    if (c.rng.chance(1, 4)) { a = std::string(s); }
    std::string whole = b + std::string(s) + a + a;
    Results r(std::string_view(whole).substr(b.size(), s.size()));
    CHECK(r.hash() == want, "surroundings", "what a text means depends on what stands around it: " << vf::quoted(std::string(s).substr(0, 300)) << " in " << vf::quoted(whole.substr(0, 400)));
    EV("texts inside of others");
}

// Every parser; results are read again after the text is gone.
void use(vf::Ctx& c, std::string_view s) {
    vf::Exact x(s, c.rng.below(8));
    auto v = x.sv();
    Results res(v);
    auto& [cand, name, part, ip, addr, port, fnd, comp, prio, type, trans] = res;
    auto hash = [&] { return res.hash(); };
    if (part.is_ok()) {
        auto rest = part.unwrap().rest;
        CHECK(rest.size() <= v.size() && (rest.empty() || (rest.data() >= v.data() && rest.data() + rest.size() == v.data() + v.size())), "rest", "the rest after a name is not inside of the text");
    }
    uint64_t before = hash();
    bool parsed = cand.is_ok() && std::holds_alternative<ic::Supported>(cand.unwrap());
    x.release();
    CHECK(hash() == before, "not.owned", "a result changes with its text: " << vf::quoted(s.substr(0, 300)));
    surround(c, s, before);
    EV("texts");
    EVN("candidates parsed", parsed);
    EVN("candidates not supported", cand.is_ok() && !parsed);
    EVN("names", name.is_ok());
    EVN("addresses", ip.is_ok());
    EVN("errors read", cand.is_err());
    c.distinct(vf::Hash().add(s));
}

std::string line(Rng& r) {
    std::string s = "candidate:" + std::to_string(r.u32()) + " " + std::to_string(1 + r.below(256)) + " UDP " + std::to_string(1 + r.below(0xffffffff)) + " " + (r.coin() ? tref::random_ip_text(r) : tref::random_fqdn(r)) + " " +
        std::to_string(r.below(65536)) + " typ " + r.one_of<std::string>({"host", "srflx", "prflx", "relay"});
    if (r.coin()) { s += " raddr " + (r.coin() ? tref::random_ip_text(r) : tref::random_fqdn(r)); }
    if (r.coin()) { s += " rport " + std::to_string(r.below(65536)); }
    while (r.chance(1, 3)) { s += " " + tref::random_text(r, 1 + r.below(40), "abcdefghijkl") + " " + tref::random_text(r, 1 + r.below(40), "abcdefghijkl"); }
    return s;
}

}

GROUP("P40", "candidates", 8000, 900000) {
    std::string s = line(c.rng);
    use(c, s);
    for (unsigned k = 0; k < 3; ++k) { tref::mutate(c.rng, s, " :.0123456789abcdef-_+/"); use(c, s); }
    c.sample(s);
}
GROUP("P40", "fields", 15000, 1500000) {
    std::string s;
    switch (c.rng.below(6)) {
    case 0: s = tref::random_ip_text(c.rng); break;
    case 1: s = tref::random_fqdn(c.rng); break;
    case 2: s = std::to_string(c.rng.skewed64()); break;
    case 3: s = c.rng.one_of<std::string>({"host", "srflx", "prflx", "relay", "udp", "candidate:", "typ"}); break;
    case 4: s = tref::random_text(c.rng, c.rng.below(40), "0123456789"); break;
    default: s = tref::random_text(c.rng, c.rng.below(40), "abcABC019+/.-:"); break;
    }
    use(c, s);
    unsigned n = 1 + (unsigned)c.rng.below(3);
    while (n--) { tref::mutate(c.rng, s, "0123456789abcdef:.-"); }
    use(c, s);
}
GROUP("P40", "noise", 8000, 800000) {
    use(c, tref::random_text(c.rng, c.rng.below(c.rng.chance(1, 20) ? 2000 : 60)));
    use(c, "candidate:" + tref::random_text(c.rng, c.rng.below(80), "  "));
    use(c, std::string("candidate:") + std::string(c.rng.below(40), ' '));
}
GROUP("P40", "prefixes", 400, 20000) {
    std::string s = line(c.rng);
    for (size_t n = 0; n <= s.size(); ++n) { use(c, std::string_view(s).substr(0, n)); use(c, std::string_view(s).substr(n)); EV("prefixes"); }
    for (size_t n = 0; n < s.size(); ++n) { std::string m = s; m[n] = c.rng.coin() ? '\0' : (char)0xff; use(c, m); }
}
// Long texts: memory, and work in proportion to the length.
GROUP("P40", "long", 16, 160) {
    unsigned kind = (unsigned)(c.idx % 16);
    auto make = [&](size_t n) {
        std::string s;
        static const char* unit[] = {"a.", "a", "-", "a-", ".", " ", "x y ", "raddr 1.1.1.1 ", "rport 1 ", ":", "1:", "1.", "0", "\xff", "a-.", "\n"};
        bool in_candidate = kind >= 5 && kind <= 8;
        if (in_candidate) { s = "candidate:1 1 UDP 1 1.1.1.1 1 typ host "; }
        while (s.size() < n) { s += unit[kind]; }
        return s;
    };
    std::string probe = make(70000);
    use(c, probe);
    use(c, "candidate:" + probe);
    use(c, "candidate:1 1 UDP 1 " + probe + " 1 typ host");
    std::string why = vf::grows_linearly(4000, 16, make, [&](const std::string& s) {
        (void)ic::parse_sdp_attr(s).is_ok();
        (void)ic::parse_sdp_attr("candidate:1 1 UDP 1 " + s + " 1 typ host").is_ok();
        (void)net::Fqdn::from_string(s).is_ok();
        (void)net::ip::Address::from_string(s).is_ok();
        (void)ic::Foundation::from_string(s).is_ok();
        (void)ic::Priority::from_string(s).is_ok();
        (void)ic::Type::from_string(s).is_ok();
        (void)net::Port::from_string(s).is_ok();
    });
    CHECK(why.empty(), "work", "work is not in proportion to the length of the text (kind " << kind << "): " << why);
    EV("long texts");
}
