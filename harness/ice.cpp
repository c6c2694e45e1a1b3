// P28, P29: ICE candidates.
#include "stunlib.hpp"
#include "textref.hpp"
#include "icegen.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
#include "ice/candidate/ice_candidate_preference.hpp"

using namespace lib;
using namespace icegen;
namespace ic = freewebrtc::ice::candidate;
using E = ic::Error;

namespace {

bool ice_char(char c) { return tref::alpha(c) || tref::digit(c) || c == '+' || c == '/'; }
// Errors of fields as of the grammar; empty: fine.
std::error_code bad_foundation(std::string_view s) {
    if (s.empty() || s.size() > 32) { return ic::make_error_code(E::invalid_foundation_length); }
    for (char c : s) { if (!ice_char(c)) { return ic::make_error_code(E::invalid_foundation_char); } }
    return {};
}
std::error_code bad_component(std::string_view s, unsigned& v) {
    if (s.empty() || s.size() > 3) { return ic::make_error_code(E::invalid_component_id_length); }
    v = 0;
    for (char c : s) { if (!tref::digit(c)) { return ic::make_error_code(E::invalid_component_id_char); } v = 10 * v + (unsigned)(c - '0'); }
    if (v > 256) { return ic::make_error_code(E::invalid_component_id_value); }
    return {};
}
std::error_code bad_priority(std::string_view s, uint32_t& v) {
    if (s.empty() || s.size() > 10) { return ic::make_error_code(E::invalid_priority_length); }
    uint64_t x = 0;
    for (char c : s) { if (!tref::digit(c)) { return ic::make_error_code(E::invalid_priority_value); } x = 10 * x + (uint64_t)(c - '0'); }
    if (x == 0 || x > 0xffffffffu) { return ic::make_error_code(E::invalid_priority_value); }
    v = (uint32_t)x;
    return {};
}
int type_index(std::string_view s) {
    static const char* n[] = {"host", "srflx", "prflx", "relay"};
    for (int i = 0; i < 4; ++i) { if (tref::same(s, n[i])) { return i; } }
    return -1;
}
int value_index(ic::Type t) {
    switch (t.value()) { case ic::Type::HOST: return 0; case ic::Type::SERVER_REFLEXIVE: return 1; case ic::Type::PEER_REFLEXIVE: return 2; case ic::Type::RELAYED: return 3; }
    return 9;
}
bool usable(std::string_view s) { return !tref::ip(s).empty() || (tref::fqdn_prefix(s) == s.size() && !s.empty()); }

struct Want {
    enum { OK, UNSUPPORTED, ERROR, NOT_OK } what = NOT_OK; // NOT_OK: which of the two is not specified
    std::error_code ec;
    const char* why = ""; // field of ec
    std::string foundation;
    unsigned component = 0;
    uint32_t priority = 0;
    std::string addr, raddr;
    int port = -1, rport = -1, type = -1;
    bool has_raddr = false, has_rport = false;
    bool again = false; // raddr or rport is repeated
    std::vector<std::pair<std::string, std::string>> ext;
};

Want want(std::string_view s) {
    Want w;
    std::string_view prefix = "candidate:";
    if (s.substr(0, prefix.size()) != prefix) { w.what = Want::ERROR; w.ec = ic::make_error_code(E::invalid_attr_prefix); w.why = "prefix"; return w; }
    auto t = tref::cut(s.substr(prefix.size()), ' ');
    if (!t.empty() && t.back().empty()) { t.pop_back(); } // a space at the end
    if (t.size() < 8) { return w; }
    if (tref::same(t[6], "typ") && t[6] != "typ") { w.again = true; }
    std::vector<std::error_code> errs;
    auto note = [&](const char* field, std::error_code e) { if (e) { if (errs.empty()) { w.why = field; } errs.push_back(e); } };
    bool generic = false; // an error without code of its own comes first
    note("foundation", bad_foundation(t[0]));
    note("component", bad_component(t[1], w.component));
    bool transport = tref::same(t[2], "udp");
    note("priority", bad_priority(t[3], w.priority));
    bool addr = usable(t[4]);
    w.port = tref::port(t[5]);
    if (w.port < 0) { note("port", net::make_error_code(net::Error::invalid_port_value)); }
    bool keyword = t[6] == "typ";
    if (!keyword) { return w; } // refused in one way or another: what follows the keyword is not specified then
    w.type = type_index(t[7]);
    w.foundation = t[0];
    w.addr = t[4];
    for (size_t i = 8; i < t.size(); i += 2) {
        bool last = i + 1 == t.size();
        if (t[i] == "raddr") {
            if (w.has_raddr) { w.again = true; }
            w.has_raddr = true;
            if (last) { if (errs.empty()) { generic = true; } }
            else { w.raddr = t[i + 1]; }
        } else if (t[i] == "rport") {
            if (w.has_rport) { w.again = true; }
            w.has_rport = true;
            if (last) { if (errs.empty()) { generic = true; } }
            else { w.rport = tref::port(t[i + 1]); if (w.rport < 0) { w.rport = -2; } }
        } else if (last) { // extension without value
            return w;
        } else { w.ext.emplace_back(t[i], t[i + 1]); }
    }
    if (w.again) { return w; }
    bool unsupported = !addr || !transport || w.type < 0;
    bool malformed = !errs.empty() || generic || (w.has_raddr && !usable(w.raddr)) || w.rport == -2;
    if (unsupported) {
        w.what = Want::UNSUPPORTED; // also when malformed in other ways
        return w;
    }
    if (!malformed) { w.what = Want::OK; return w; }
    w.what = Want::ERROR;
    if (!errs.empty()) { w.ec = errs[0]; }
    else if (generic) { w.ec = {}; }
    else if (w.has_raddr && !usable(w.raddr)) { w.ec = net::make_error_code(net::Error::ip_address_parse_error); w.why = "raddr"; }
    else { w.ec = net::make_error_code(net::Error::invalid_port_value); w.why = "rport"; }
    return w;
}

// Text of the address as it is kept.
std::string differs(const ic::Address& a, const std::string& s) {
    Bytes ip = tref::ip(s);
    if (!ip.empty()) {
        if (a.as_ip_address().is_none() || a.as_fqdn().is_some()) { return "is not an IP address"; }
        if (ip_bytes(a.as_ip_address().unwrap().get()) != ip) { return "is " + vf::hex(ip_bytes(a.as_ip_address().unwrap().get())); }
        auto t = a.to_string();
        if (t.is_err() || tref::ip(t.unwrap()) != ip) { return "has another text"; }
    } else {
        if (a.as_fqdn().is_none() || a.as_ip_address().is_some()) { return "is not a name"; }
        if (a.as_fqdn().unwrap().get().to_string() != s) { return "is " + a.as_fqdn().unwrap().get().to_string(); }
        auto t = a.to_string();
        if (t.is_err() || t.unwrap() != s) { return "has another text"; }
    }
    return "";
}

std::string differs(const ic::Supported& s, const Want& w) {
    std::ostringstream o;
    auto& k = s.candidate;
    if (k.foundation.to_string() != w.foundation) { o << "foundation " << vf::quoted(k.foundation.to_string()) << "; "; }
    if (k.component.value() != w.component) { o << "component " << k.component.value() << "; "; }
    if (!(k.transport_type == ic::TransportType::udp())) { o << "transport; "; }
    if (!(k.priority == ic::Priority::from_uint32(w.priority).unwrap())) { o << "priority; "; }
    std::string a = differs(k.address, w.addr);
    if (!a.empty()) { o << "address " << a << "; "; }
    if (k.port.value() != w.port) { o << "port " << k.port.value() << "; "; }
    if (value_index(k.type) != w.type) { o << "type " << k.type.to_string() << "; "; }
    if (k.maybe_related_address.is_some() != w.has_raddr) { o << "related address is " << (w.has_raddr ? "missing; " : "invented; "); }
    else if (w.has_raddr) { a = differs(k.maybe_related_address.unwrap(), w.raddr); if (!a.empty()) { o << "related address " << a << "; "; } }
    if (k.maybe_related_port.is_some() != w.has_rport) { o << "related port is " << (w.has_rport ? "missing; " : "invented; "); }
    else if (w.has_rport && k.maybe_related_port.unwrap().value() != w.rport) { o << "related port " << k.maybe_related_port.unwrap().value() << "; "; }
    if (s.extensions.size() != w.ext.size()) { o << s.extensions.size() << " extensions; "; }
    else { for (size_t i = 0; i < w.ext.size(); ++i) { if (s.extensions[i].att_name != w.ext[i].first || s.extensions[i].att_value != w.ext[i].second) { o << "extension " << i << " is " << vf::quoted(s.extensions[i].att_name) << " " << vf::quoted(s.extensions[i].att_value) << "; "; } } }
    return o.str();
}

void judge(vf::Ctx& c, const std::string& s) {
    Want w = want(s);
    vf::Exact x(std::string_view(s), c.rng.below(4));
    auto r = ic::parse_sdp_attr(x.sv());
    x.release();
    c.distinct(vf::Hash().add(s));
    auto* ok = r.is_ok() ? std::get_if<ic::Supported>(&r.unwrap()) : nullptr;
    auto* no = r.is_ok() ? std::get_if<ic::Unsupported>(&r.unwrap()) : nullptr;
    std::string got = ok ? "parsed" : no ? "unsupported (" + no->value + ")" : "refused (" + r.unwrap_err().message() + ")";
    if (w.again) { EV("not specified"); return; }
    switch (w.what) {
    case Want::OK: {
        CHECK(ok, "rejected", "well-formed candidate is " << got << ": " << vf::quoted(s));
        std::string d = differs(*ok, w);
        CHECK(d.empty(), "field", d << vf::quoted(s));
        EV("parsed");
        if (!w.ext.empty()) { EV("with extensions"); }
        if (w.has_raddr) { EV("with related address"); }
        c.sample(s);
        break;
    }
    case Want::UNSUPPORTED: CHECK(no, "unsupported", "candidate that is not supported is " << got << ": " << vf::quoted(s)); EV("unsupported"); break;
    case Want::ERROR:
        CHECK(r.is_err(), "accepted", "malformed candidate is " << got << ": " << vf::quoted(s));
        if (w.ec) { CHECK(r.unwrap_err() == w.ec, "error", "candidate is " << got << " instead of '" << w.ec.message() << "': " << vf::quoted(s)); vf::ev(std::string("refused for ") + w.why); } else { EV("refused"); }
        break;
    case Want::NOT_OK: CHECK(!ok, "accepted", "malformed candidate is " << got << ": " << vf::quoted(s)); EV("not parsed"); break;
    }
}

// A wrong value in a field.
std::string bad_token(Rng& r, const std::string& good, bool number, size_t max) {
    switch (r.below(6)) {
    case 0: return good + no_spaces(r, max + 1 - std::min(good.size(), max));
    case 1: return std::string(max + 1, number ? '0' + (char)r.below(10) : 'a');
    case 2: { std::string s = good; s[r.below(s.size())] = (char)r.range(33, 47); return s; }
    case 3: return number ? std::to_string(r.skewed64()) : no_spaces(r, 1 + r.below(8));
    case 4: return "-" + good;
    default: return no_spaces(r, 1 + r.below(5));
    }
}

}

GROUP("P28", "well-formed", 12000, 1200000) {
    Fields f = random_fields(c.rng);
    judge(c, f.text());
    if (c.rng.chance(1, 4)) { judge(c, f.text() + " "); }
}
GROUP("P28", "one bad field", 12000, 1200000) {
    for (unsigned k = 0; k < 2; ++k) {
        Fields f = random_fields(c.rng);
        unsigned n = c.rng.chance(3, 4) ? 1 : 2; // sometimes two
        while (n--) {
            switch (c.rng.below(11)) {
            case 0: f.foundation = bad_token(c.rng, f.foundation, false, 32); break;
            case 1: f.component = c.rng.chance(1, 3) ? std::to_string(250 + c.rng.below(760)) : bad_token(c.rng, f.component, true, 3); break;
            case 2: f.transport = c.rng.coin() ? c.rng.one_of<std::string>({"tcp", "udpx", "ud", "UDP4", "udp/", "0dp"}) : no_spaces(c.rng, 1 + c.rng.below(6)); break;
            case 3: f.priority = c.rng.chance(1, 3) ? c.rng.one_of<std::string>({"0", "00", "4294967295", "4294967296", "4294967297", "9999999999", "0000000000", "8589934593", "00000000001", "12345678901"}) : bad_token(c.rng, f.priority, true, 10); break;
            case 4: f.addr = c.rng.coin() ? no_spaces(c.rng, 1 + c.rng.below(10)) : c.rng.one_of<std::string>({"-a", "1.2.3.256:", "a..b", "a-", ":::", "1::2::3", ".", "fe80::1%1", "[::1]"}); break;
            case 5: f.port = c.rng.coin() ? c.rng.one_of<std::string>({"65536", "99999", "100000", "000080", "-1", "+1", "0x1"}) : bad_token(c.rng, f.port, true, 5); break;
            case 6: f.typ = c.rng.one_of<std::string>({"type", "ty", "t", "pyt", "typ:", "host"}); break;
            case 7: f.type = c.rng.coin() ? c.rng.one_of<std::string>({"hos", "hostt", "srfl", "relayed", "h0st", "prflX_"}) : no_spaces(c.rng, 1 + c.rng.below(6)); break;
            case 8: f.more.emplace_back("raddr", no_spaces(c.rng, 1 + c.rng.below(9))); break;
            case 9: f.more.emplace_back("rport", bad_token(c.rng, "80", true, 5)); break;
            default: f.prefix = c.rng.one_of<std::string>({"candidate", "candidate :", "candidat:", "", "a=candidate:", "candidates:", " candidate:", "candidate;", "candidatd:"});
            }
        }
        judge(c, f.text());
    }
}
GROUP("P28", "edited", 12000, 1200000) {
    std::string s = random_fields(c.rng).text();
    for (unsigned k = 0; k < 4; ++k) {
        std::string m = s;
        unsigned n = 1 + (unsigned)c.rng.below(3);
        while (n--) { tref::mutate(c.rng, m, " 0123456789abcdefghijklmnoprstuvxyz:./+-"); }
        judge(c, m);
    }
    // Cut after each token; tokens left out, doubled, exchanged.
    auto t = tref::cut(s, ' ');
    std::vector<std::string_view> u(t.begin(), t.end());
    switch (c.rng.below(4)) {
    case 0: u.resize(c.rng.below(u.size() + 1)); break;
    case 1: u.erase(u.begin() + (long)c.rng.below(u.size())); break;
    case 2: { size_t i = c.rng.below(u.size()); u.insert(u.begin() + (long)i, u[i]); break; }
    default: std::swap(u[c.rng.below(u.size())], u[c.rng.below(u.size())]);
    }
    std::string m;
    for (size_t i = 0; i < u.size(); ++i) { m += (i ? " " : ""); m += u[i]; }
    judge(c, m);
    EV("tokens moved");
}
// Every number of extensions and every length of a field.
GROUP("P28", "lengths", 500, 3000) {
    size_t n = c.idx;
    Fields f = random_fields(c.rng);
    f.more.clear();
    for (size_t i = 0; i < n; ++i) { f.more.emplace_back("k" + std::to_string(i % 7) + no_spaces(c.rng, 1), no_spaces(c.rng, 1 + c.rng.below(3))); }
    judge(c, f.text());
    judge(c, f.text() + " odd");
    for (unsigned k = 0; k < 9; ++k) {
        Fields g = random_fields(c.rng);
        switch (k) {
        case 0: g.foundation = std::string(n, 'f'); break;
        case 1: g.component = std::string(n, '0') + "1"; break;
        case 2: g.transport += std::string(n, 'x'); break;
        case 3: g.priority = std::string(n, '0') + "7"; break;
        case 4: g.addr = std::string(1 + n, 'h') + (c.rng.coin() ? ".a" : ""); break;
        case 5: g.port = std::string(n, '0') + "9"; break;
        case 6: g.type += std::string(n, 't'); break;
        case 7: g.more.emplace_back(no_spaces(c.rng, 1 + n), no_spaces(c.rng, 1 + c.rng.below(9))); break;
        default: g.more.emplace_back(no_spaces(c.rng, 1 + c.rng.below(9)), no_spaces(c.rng, 1 + n));
        }
        judge(c, g.text());
    }
    EV("lengths enumerated");
}
// Very many extensions and very long fields.
GROUP("P28", "very long", 24, 240) {
    static const size_t K[] = {255, 1001, 4096, 32760, 32768, 65530, 65536, 65537, 40000, 2000, 70000, 16384};
    size_t n = K[c.idx % 12] + c.rng.below(c.idx < 12 ? 1 : 20);
    Fields f = random_fields(c.rng);
    f.more.clear();
    for (size_t i = 0; i < n; ++i) { f.more.emplace_back("k" + std::to_string(i % 7) + no_spaces(c.rng, 1), no_spaces(c.rng, 1 + c.rng.below(3))); }
    judge(c, f.text());
    judge(c, f.text() + " odd");
    for (unsigned k = 0; k < 9; ++k) {
        Fields g = random_fields(c.rng);
        switch (k) {
        case 0: g.foundation = std::string(n, 'f'); break;
        case 1: g.component = std::string(n, '0') + "1"; break;
        case 2: g.transport += std::string(n, 'x'); break;
        case 3: g.priority = std::string(n, '0') + "7"; break;
        case 4: g.addr = std::string(1 + n, 'h') + (c.rng.coin() ? ".a" : ""); break;
        case 5: g.port = std::string(n, '0') + "9"; break;
        case 6: g.type += std::string(n, 't'); break;
        case 7: g.more.emplace_back(no_spaces(c.rng, 1 + n), no_spaces(c.rng, 1 + c.rng.below(9))); break;
        default: g.more.emplace_back(no_spaces(c.rng, 1 + c.rng.below(9)), no_spaces(c.rng, 1 + n));
        }
        judge(c, g.text());
    }
    EV("very long candidates");
}
GROUP("P28", "not candidates", 3000, 200000) {
    judge(c, tref::random_text(c.rng, c.rng.below(80), "candidate: 0123456789.typhosudp"));
    judge(c, "candidate:" + tref::random_text(c.rng, c.rng.below(80), " 0123456789.typhosudp"));
    judge(c, std::string("candidate:").substr(0, c.rng.below(11)));
    EV("not candidates");
}

// ---------------------------------------------------------------- P29
namespace {
template<typename R> bool fails(const R& r, std::error_code e) { return r.is_err() && r.unwrap_err() == e; }
}
GROUP("P29", "component numbers", 70, 700) {
    std::vector<unsigned> v;
    for (unsigned i = (unsigned)(c.idx % 70) * 1000; i < (unsigned)(c.idx % 70 + 1) * 1000; ++i) { v.push_back(i); }
    for (unsigned k = 0; k < 500; ++k) { v.push_back((unsigned)c.rng.skewed64()); }
    for (unsigned x : v) {
        auto r = ic::ComponentId::from_unsigned(x);
        CHECK(r.is_ok() == (x >= 1 && x <= 256), "component.range", "component " << x << (r.is_ok() ? " is accepted" : " is refused"));
        auto t = ic::TypePreference::from_unsigned(x);
        CHECK(t.is_ok() == (x <= 126), "type.range", "type preference " << x << (t.is_ok() ? " is accepted" : " is refused"));
        auto l = ic::LocalPreference::from_unsigned(x);
        CHECK(l.is_ok() == (x <= 65535), "local.range", "local preference " << x << (l.is_ok() ? " is accepted" : " is refused"));
        auto k = ic::ComponentPreference::from_unsigned(x);
        CHECK(k.is_ok() == (x <= 255), "component.preference.range", "component preference " << x << (k.is_ok() ? " is accepted" : " is refused"));
        if (r.is_ok()) { CHECK(r.unwrap().value() == x, "component.value", x); CHECK(ic::ComponentPreference::recommended_for(r.unwrap()).value() == 256 - x, "recommended", "recommended preference of component " << x << " is " << ic::ComponentPreference::recommended_for(r.unwrap()).value()); EV("components"); }
        else { CHECK(fails(r, ic::make_error_code(E::invalid_component_id_value)), "component.error", "error of component " << x); }
        if (t.is_ok()) { CHECK(t.unwrap().value() == x, "type.value", x); } else { CHECK(fails(t, ic::make_error_code(E::invalid_type_preference_value)), "type.error", "error of type preference"); }
        if (l.is_ok()) { CHECK(l.unwrap().value() == x, "local.value", x); } else { CHECK(fails(l, ic::make_error_code(E::invalid_local_preference_value)), "local.error", "error of local preference"); }
        if (k.is_ok()) { CHECK(k.unwrap().value() == x, "component.preference.value", x); } else { CHECK(fails(k, ic::make_error_code(E::invalid_component_preference_value)), "component.preference.error", "error of component preference"); }
        auto p = ic::Priority::from_uint32(x);
        CHECK(p.is_ok() == (x != 0), "priority.range", "priority " << x);
        if (p.is_ok()) {
            uint32_t y = c.rng.coin() ? x : x ^ (1u << c.rng.below(32));
            if (y) { CHECK((p.unwrap() == ic::Priority::from_uint32(y).unwrap()) == (x == y), "priority.equal", "priorities " << x << " and " << y); }
            auto s = ic::Priority::from_string(std::to_string(x));
            CHECK(s.is_ok() && s.unwrap() == p.unwrap(), "priority.text", "text of priority " << x);
        } else { CHECK(fails(p, ic::make_error_code(E::invalid_priority_value)), "priority.error", "error of priority 0"); }
        EV("numbers");
        c.distinct(vf::Hash().add(x));
    }
}
GROUP("P29", "component texts", 1110, 1110) {
    auto judge = [&](const std::string& s) {
        vf::Exact x{std::string_view(s)};
        unsigned v = 0;
        auto want = bad_component(s, v);
        auto r = ic::ComponentId::from_string(x.sv());
        c.distinct(vf::Hash().add(1).add(s));
        EV("component texts");
        if (!want && v == 0) { return; } // zero as text is not specified
        CHECK(r.is_ok() == !want, "component.text", vf::quoted(s) << (r.is_ok() ? " is accepted" : " is refused") << " as component");
        if (r.is_ok()) { CHECK(r.unwrap().value() == v && r.unwrap() == ic::ComponentId::from_unsigned(v).unwrap(), "component.text.value", vf::quoted(s) << " is " << r.unwrap().value()); }
        else { CHECK(fails(r, want), "component.text.error", vf::quoted(s) << ": '" << r.unwrap_err().message() << "'"); }
    };
    std::string s = std::to_string(c.idx < 1000 ? c.idx : c.idx < 1100 ? c.idx - 1000 : c.idx - 1100);
    if (c.idx >= 1000) { while (s.size() < (c.idx < 1100 ? 2u : 1u)) { s = "0" + s; } s = "0" + s; }
    judge(s);
    judge("0" + s);
    for (unsigned k = 0; k < 30; ++k) { std::string m = s; tref::mutate(c.rng, m, "0123456789 +-"); judge(m); }
    judge(std::string(1, (char)c.idx)); judge("1" + std::string(1, (char)c.idx)); judge(std::string(1, (char)c.idx) + "1");
    judge("");
}
GROUP("P29", "foundations", 256, 25600) {
    auto judge = [&](const std::string& s) {
        vf::Exact x{std::string_view(s)};
        auto want = bad_foundation(s);
        auto r = ic::Foundation::from_string(x.sv());
        x.release();
        CHECK(r.is_ok() == !want, "foundation", vf::quoted(s) << (r.is_ok() ? " is accepted" : " is refused") << " as foundation");
        if (r.is_ok()) {
            CHECK(r.unwrap().to_string() == s, "foundation.value", vf::quoted(s) << " is " << vf::quoted(r.unwrap().to_string()));
            std::string o = s;
            if (c.rng.coin()) { o[c.rng.below(o.size())] ^= 0x20; }
            auto r2 = ic::Foundation::from_string(o);
            if (r2.is_ok()) { CHECK((r2.unwrap() == r.unwrap()) == (o == s), "foundation.equal", vf::quoted(s) << " and " << vf::quoted(o)); }
        } else { CHECK(fails(r, want), "foundation.error", vf::quoted(s) << ": '" << r.unwrap_err().message() << "'"); }
        EV("foundations");
        c.distinct(vf::Hash().add(2).add(s));
    };
    static const std::string chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/";
    for (size_t n = 0; n <= 34; ++n) {
        std::string s;
        while (s.size() < n) { s += c.rng.pick(chars); }
        judge(s);
        if (n > 0) { s[c.rng.below(n)] = (char)c.idx; judge(s); s.back() = (char)c.idx; judge(s); }
    }
    judge(std::string(c.rng.below(300), 'a'));
}
GROUP("P29", "priority texts", 4000, 400000) {
    auto judge = [&](const std::string& s) {
        vf::Exact x{std::string_view(s)};
        uint32_t v = 0;
        auto want = bad_priority(s, v);
        auto r = ic::Priority::from_string(x.sv());
        CHECK(r.is_ok() == !want, "priority.text", vf::quoted(s) << (r.is_ok() ? " is accepted" : " is refused") << " as priority");
        if (r.is_ok()) { CHECK(r.unwrap() == ic::Priority::from_uint32(v).unwrap(), "priority.text.value", "value of " << vf::quoted(s)); }
        else { CHECK(fails(r, want), "priority.text.error", vf::quoted(s) << ": '" << r.unwrap_err().message() << "'"); }
        EV("priority texts");
        c.distinct(vf::Hash().add(3).add(s));
    };
    std::string s = c.rng.coin() ? std::to_string((uint32_t)c.rng.skewed64()) : std::to_string(4294967296ull + (uint64_t)c.rng.range(-3, 3));
    judge(s);
    judge(std::to_string(c.rng.below(10000000000ull)));
    judge(std::to_string(c.rng.skewed64()));
    std::string z = s;
    while (z.size() < 12) { z = "0" + z; judge(z); }
    for (unsigned k = 0; k < 6; ++k) { std::string m = s; tref::mutate(c.rng, m, "0123456789 +-"); judge(m); }
    if (c.idx < 256) { judge(std::string(1, (char)c.idx)); judge("1" + std::string(1, (char)c.idx)); }
}
GROUP("P29", "names", 200, 20000) {
    static const char* n[] = {"host", "srflx", "prflx", "relay"};
    const ic::Type all[] = {ic::Type::host(), ic::Type::server_reflexive(), ic::Type::peer_reflexive(), ic::Type::relayed()};
    static const unsigned pref[] = {126, 100, 110, 0};
    for (int i = 0; i < 4; ++i) {
        CHECK(value_index(all[i]) == i && all[i].to_string() == n[i], "type", "type " << n[i] << " is " << all[i].to_string());
        CHECK(ic::TypePreference::recommended_for(all[i]).value() == pref[i], "recommended.type", "recommended preference of " << n[i] << " is " << ic::TypePreference::recommended_for(all[i]).value());
        for (int k = 0; k < 4; ++k) { CHECK((all[i] == all[k]) == (i == k), "type.equal", n[i] << " and " << n[k]); }
    }
    auto judge = [&](const std::string& s) {
        vf::Exact x{std::string_view(s)};
        int want = type_index(s);
        auto r = ic::Type::from_string(x.sv());
        auto t = ic::TransportType::from_string(x.sv());
        x.release();
        CHECK(r.is_ok() == (want >= 0), "type.text", vf::quoted(s) << (r.is_ok() ? " is accepted" : " is refused") << " as type");
        if (r.is_ok()) { CHECK(value_index(r.unwrap()) == want && r.unwrap() == all[want], "type.text.value", vf::quoted(s) << " is " << r.unwrap().to_string()); }
        else { CHECK(fails(r, ic::make_error_code(E::unknown_candidate_type)), "type.error", vf::quoted(s) << ": " << r.unwrap_err().message()); }
        CHECK(t.is_ok() == tref::same(s, "udp"), "transport.text", vf::quoted(s) << (t.is_ok() ? " is accepted" : " is refused") << " as transport");
        if (t.is_ok()) { CHECK(t.unwrap() == ic::TransportType::udp() && t.unwrap().to_string() == "udp", "transport.value", t.unwrap().to_string()); }
        else { CHECK(fails(t, ic::make_error_code(E::unknown_transport_type)), "transport.error", vf::quoted(s) << ": " << t.unwrap_err().message()); }
        EV("names");
        c.distinct(vf::Hash().add(4).add(s));
    };
    for (auto* s : {"host", "srflx", "prflx", "relay", "udp", ""}) {
        for (unsigned mask = 0; mask < 32; ++mask) {
            std::string m = s;
            for (size_t i = 0; i < m.size(); ++i) { if (mask >> i & 1) { m[i] ^= 0x20; } }
            judge(m);
        }
        for (unsigned k = 0; k < 8; ++k) { std::string m = s; tref::mutate(c.rng, m, "hostrflxpeayudtc"); judge(m); }
        std::string m = s;
        if (!m.empty()) { m[c.rng.below(m.size())] ^= (char)(1u << c.rng.below(8)); judge(m); }
    }
}
GROUP("P29", "formula", 4000, 400000) {
    auto prio = [&](unsigned t, unsigned l, unsigned k) {
        return ic::Preference{ic::TypePreference::from_unsigned(t).unwrap(), ic::LocalPreference::from_unsigned(l).unwrap(), ic::ComponentPreference::from_unsigned(k).unwrap()}.to_priority();
    };
    unsigned t = c.idx % 4 == 0 ? (unsigned)(c.idx / 4 % 127) : (unsigned)c.rng.below(127);
    unsigned l = c.rng.chance(1, 3) ? c.rng.one_of<unsigned>({0, 1, 255, 256, 32767, 32768, 65534, 65535}) : (unsigned)c.rng.below(65536);
    unsigned k = c.rng.chance(1, 3) ? c.rng.one_of<unsigned>({0, 1, 127, 128, 254, 255}) : (unsigned)c.rng.below(256);
    if (c.idx == 0) { t = l = k = 0; }
    uint64_t want = ((uint64_t)t << 24) + ((uint64_t)l << 8) + k;
    auto p = prio(t, l, k);
    CHECK(p.is_ok() == (want != 0), "formula.zero", "priority of " << t << "/" << l << "/" << k << (p.is_ok() ? " exists" : " does not exist"));
    EV("priorities computed");
    c.distinct(vf::Hash().add(5).add(want));
    if (p.is_err()) { return; }
    CHECK(p.unwrap() == ic::Priority::from_uint32((uint32_t)want).unwrap(), "formula", "priority of " << t << "/" << l << "/" << k << " is not " << want);
    unsigned t2 = c.rng.coin() ? t : (unsigned)c.rng.below(127), l2 = c.rng.coin() ? l : (unsigned)c.rng.below(65536), k2 = c.rng.coin() ? k : (unsigned)c.rng.below(256);
    auto q = prio(t2, l2, k2);
    if (q.is_ok()) { CHECK((q.unwrap() == p.unwrap()) == (t == t2 && l == l2 && k == k2), "formula.unique", "priorities of " << t << "/" << l << "/" << k << " and " << t2 << "/" << l2 << "/" << k2); EV("pairs of preferences"); }
}
