// P30, P31: textual addresses, ports, endpoints, domain names.
#include "stunlib.hpp"
#include "textref.hpp"
#include "net/net_fqdn.hpp"
#include "net/net_path.hpp"
#include "ice/candidate/ice_candidate_address.hpp"

using namespace lib;

namespace {

void judge_ip(vf::Ctx& c, const std::string& s) {
    vf::Exact x(std::string_view(s), c.rng.below(4));
    auto r = net::ip::Address::from_string(x.sv());
    x.release();
    Bytes want = tref::ip(s);
    c.distinct(vf::Hash().add(s));
    CHECK(r.is_ok() == !want.empty(), want.empty() ? "ip.accepted" : "ip.rejected", vf::quoted(s) << (r.is_ok() ? " is accepted as " + vf::hex(ip_bytes(r.unwrap())) : " is rejected"));
    // The same decision is made for candidate addresses.
    if (want.empty()) { EV("addresses refused"); CHECK(r.unwrap_err() == net::make_error_code(net::Error::ip_address_parse_error), "ip.error", vf::quoted(s) << " is refused with '" << r.unwrap_err().message() << "'"); return; }
    auto& a = r.unwrap();
    CHECK(ip_bytes(a) == want, "ip.bytes", vf::quoted(s) << " is " << vf::hex(ip_bytes(a)) << " instead of " << vf::hex(want));
    CHECK(a == address(want) && a.value().index() == (want.size() == 4 ? 0u : 1u), "ip.equal", vf::quoted(s) << " is not equal to the address of the same bytes");
    EV("addresses accepted");
    vf::ev(want.size() == 4 ? "IPv4" : "IPv6");
    c.sample(s);
}

}

GROUP("P30", "texts", 12000, 1500000) {
    std::string s = tref::random_ip_text(c.rng);
    judge_ip(c, s);
    for (unsigned k = 0; k < 4; ++k) {
        std::string m = s;
        unsigned n = 1 + (unsigned)c.rng.below(2);
        while (n--) { tref::mutate(c.rng, m, "0123456789abcdefABCDEF:::...:: /%"); }
        judge_ip(c, m);
    }
}
GROUP("P30", "noise", 10000, 1000000) {
    judge_ip(c, tref::random_text(c.rng, c.rng.below(c.rng.chance(1, 8) ? 60 : 20), "0123456789abcdefF:::::.."));
    // Dotted decimals of any shape.
    std::string s;
    unsigned n = 1 + (unsigned)c.rng.below(6);
    while (n--) { s += c.rng.one_of<std::string>({"0", "00", "01", "1", "9", "10", "99", "100", "255", "256", "300", "999", "1000", "", "-1", "+1", "0x1", " 1"}); if (n) { s += '.'; } }
    judge_ip(c, s);
    s.clear();
    n = (unsigned)c.rng.below(10);
    if (c.rng.chance(1, 4)) { s = "::"; }
    while (n--) { s += c.rng.one_of<std::string>({"0", "1", "ffff", "0000", "00001", "abcd", "g", "1", "2", "10.0.0.1", "", "F"}); if (n || c.rng.chance(1, 8)) { s += c.rng.chance(1, 6) ? "::" : ":"; } }
    judge_ip(c, s);
}
// Whatever follows an address, and a zero byte in particular, makes it none.
GROUP("P30", "tails", 256, 256 * 40) {
    std::string s = tref::random_ip_text(c.rng);
    std::string t = s + std::string(1, (char)(c.idx % 256));
    judge_ip(c, t);
    judge_ip(c, std::string(1, (char)(c.idx % 256)) + s);
    judge_ip(c, t + s);
    EV("tails");
}
// Addresses the way other texts show them: with brackets, quotes, prefix lengths,
// ports, zones, white space or a root dot none of them is an address any more.
GROUP("P30", "decorated", 4000, 200000) {
    std::string s = tref::random_ip_text(c.rng);
    static const std::pair<const char*, const char*> around[] = {
        {"[", "]"}, {"(", ")"}, {"<", ">"}, {"{", "}"}, {"\"", "\""}, {"'", "'"}, {"`", "`"}, {" ", ""}, {"", " "}, {" ", " "}, {"\t", ""}, {"", "\t"}, {"", "\n"}, {"\n", ""}, {"", "\r\n"}, {"", "\r"}, {"\v", ""}, {"", "\f"},
        {"", "/32"}, {"", "/64"}, {"", "/0"}, {"", "/128"}, {"", "/255.255.255.0"}, {"", ":80"}, {"[", "]:80"}, {"", "%eth0"}, {"", "%0"}, {"", "%1"}, {"", "%"}, {"", "."}, {".", ""}, {"", ".."}, {"", ","}, {"", ";"}, {"", "]"}, {"[", ""},
        {"ip:", ""}, {"ipv4:", ""}, {"ipv6:", ""}, {"IPv6:", ""}, {"[IPv6:", "]"}, {"IP4 ", ""}, {"IN IP6 ", ""}, {"//", ""}, {"//", "/"}, {"stun:", ""}, {"udp://", ""}, {"+", ""}, {"-", ""}, {"0x", ""}, {"x", ""}, {"", "h"}, {"", "#"}, {"", "?"}, {"@", ""}, {"\\", ""},
        {"::ffff:", ""}, {"::", ""}, {"0:0:0:0:0:ffff:", ""}, {"64:ff9b::", ""}, {"", "::"}, {"", ".in-addr.arpa"}, {"", ".ip6.arpa"}, {"", ".ipv6-literal.net"}, {"\xef\xbb\xbf", ""}, {"\xc2\xa0", ""}, {"", "\xc2\xa0"},
    };
    for (auto& [b, e] : around) { judge_ip(c, b + s + e); EV("decorated addresses"); }
    std::string up = s, dash = s, full = s;
    for (auto& ch : up) { ch = (char)std::toupper((unsigned char)ch); }
    for (auto& ch : dash) { if (ch == ':') { ch = '-'; } else if (ch == '.') { ch = ','; } }
    for (auto& ch : full) { if (ch == ':') { ch = ';'; } }
    judge_ip(c, up);
    judge_ip(c, dash);
    judge_ip(c, full);
    judge_ip(c, s + " " + s);
    judge_ip(c, s + "," + s);
    judge_ip(c, s + "-" + s);
}
// Out and back.
GROUP("P30", "round trip", 15000, 1500000) {
    Bytes b = tref::random_ip(c.rng);
    auto a = address(b);
    auto s = a.to_string();
    CHECK(s.is_ok(), "print", "address " << vf::hex(b) << " has no text");
    CHECK(tref::ip(s.unwrap()) == b, "print.text", "text of " << vf::hex(b) << " is " << vf::quoted(s.unwrap()));
    auto back = net::ip::Address::from_string(s.unwrap());
    CHECK(back.is_ok() && back.unwrap() == a, "round.trip", vf::quoted(s.unwrap()) << " does not parse back");
    CHECK(ip_bytes(a) == b && bytes(a.view()) == b, "bytes", "raw bytes of " << vf::hex(b));
    // From raw bytes: of the exact size only.
    Bytes raw = c.rng.bytes(c.rng.below(24));
    auto v4 = net::ip::AddressV4::from_view(view(raw));
    auto v6 = net::ip::AddressV6::from_view(view(raw));
    CHECK(v4.is_ok() == (raw.size() == 4) && v6.is_ok() == (raw.size() == 16), "raw.size", raw.size() << " raw bytes: IPv4 " << v4.is_ok() << ", IPv6 " << v6.is_ok());
    if (v4.is_ok()) { CHECK(bytes(v4.unwrap().view()) == raw, "raw.bytes", "IPv4 bytes"); } else { CHECK(v4.unwrap_err() == net::make_error_code(net::Error::invalid_address_size), "raw.error", "error"); }
    if (v6.is_ok()) { CHECK(bytes(v6.unwrap().view()) == raw, "raw.bytes", "IPv6 bytes"); }
    // Equality.
    Bytes d = b;
    d[c.rng.below(d.size())] ^= (uint8_t)(1u << c.rng.below(8));
    CHECK(!(address(d) == a) && address(d) != a && address(b) == a, "equality", "addresses " << vf::hex(b) << " and " << vf::hex(d));
    Bytes other(b.size() == 4 ? 16 : 4, 0);
    std::copy_n(b.begin(), std::min(b.size(), other.size()), other.begin());
    CHECK(!(address(other) == a), "equality.family", "addresses of different families are equal: " << vf::hex(b));
    // Paths are equal if both ends are.
    net::Path p{a, address(d)}, q{a, address(d)}, w{address(d), a}, u{a, a};
    CHECK(p == q && !(p == w) && !(p == u) && !(w == u), "path", "paths of " << vf::hex(b) << " and " << vf::hex(d));
    // Endpoints.
    uint16_t port = (uint16_t)c.rng.skewed64();
    ref::Addr ra{b, port};
    auto ue = endpoint(ra, true), te = endpoint(ra, false);
    CHECK(ue.is_udp() && !te.is_udp(), "endpoint.protocol", "protocols of endpoints");
    CHECK(ip_bytes(ue.address()) == b && ip_bytes(te.address()) == b && ue.port().value() == port && te.port().value() == port, "endpoint", "endpoint of " << show(ra));
    net::UdpEndpoint lue{a, net::Port(port)};
    net::TcpEndpoint lte{a, net::Port(port)};
    net::Endpoint le(lue), lt(lte), copy(le);
    CHECK(le.is_udp() && !lt.is_udp() && copy.is_udp() && ip_bytes(copy.address()) == b && copy.port().value() == port && ip_bytes(lt.address()) == b, "endpoint.copy", "copies of endpoints");
    EV("round trips");
    c.distinct(vf::Hash().add(b).add(port));
}
GROUP("P30", "ports", 70000, 70000) {
    std::string s = std::to_string(c.idx);
    auto judge = [&](const std::string& t) {
        vf::Exact x(std::string_view(t), c.rng.below(3));
        auto r = net::Port::from_string(x.sv());
        int want = tref::port(t);
        CHECK(r.is_ok() == (want >= 0), want < 0 ? "port.accepted" : "port.rejected", vf::quoted(t) << (r.is_ok() ? " is accepted as port" : " is refused as port"));
        if (r.is_ok()) { CHECK(r.unwrap().value() == want && r.unwrap() == net::Port::from_uint16((uint16_t)want), "port.value", vf::quoted(t) << " is port " << r.unwrap().value()); EV("ports accepted"); }
        else { CHECK(r.unwrap_err() == net::make_error_code(net::Error::invalid_port_value), "port.error", "error for " << vf::quoted(t)); EV("ports refused"); }
        c.distinct(vf::Hash().add(1).add(t));
    };
    judge(s);
    while (s.size() < 6 && c.rng.coin()) { s = "0" + s; judge(s); }
    if (c.idx < 256) { judge(std::string(1, (char)c.idx)); judge("1" + std::string(1, (char)c.idx)); judge(std::string(1, (char)c.idx) + "1"); judge("80" + std::string(1, (char)c.idx) + "1"); }
    if (c.idx % 16 == 0) { tref::mutate(c.rng, s, "0123456789"); judge(s); tref::mutate(c.rng, s, "0123456789 +-"); judge(s); }
    if (c.idx == 5) { judge(""); judge("00000"); judge("000000"); judge("100000"); judge("99999"); judge("65536"); judge("4294967297"); judge("18446744073709551617"); judge("00080"); judge("000080"); }
    if (c.idx < 65536) {
        auto p = net::Port::from_uint16((uint16_t)c.idx);
        CHECK(p.value() == c.idx && p == net::Port((uint16_t)c.idx) && !(p == net::Port((uint16_t)(c.idx ^ (1u << c.rng.below(16))))), "port.equal", "port " << c.idx);
    }
}

// ---------------------------------------------------------------- P31
namespace {
void judge_name(vf::Ctx& c, const std::string& s) {
    vf::Exact x(std::string_view(s), c.rng.below(4));
    size_t want = tref::fqdn_prefix(s);
    auto r = net::Fqdn::parse(x.sv());
    auto w = net::Fqdn::from_string(x.sv());
    c.distinct(vf::Hash().add(s));
    CHECK(r.is_ok() == (want > 0), want ? "rejected" : "accepted", vf::quoted(s) << (r.is_ok() ? " starts with a name" : " does not start with a name"));
    CHECK(w.is_ok() == (want > 0 && want == s.size()), want == s.size() ? "whole.rejected" : "whole.accepted", vf::quoted(s) << (w.is_ok() ? " is accepted" : " is refused") << " as a whole");
    if (r.is_err()) {
        CHECK(r.unwrap_err() == net::make_error_code(net::Error::fqdn_invalid_label_expect_letter), "error", vf::quoted(s) << ": '" << r.unwrap_err().message() << "'");
        CHECK(w.unwrap_err() == net::make_error_code(net::Error::fqdn_invalid_label_expect_letter), "whole.error", vf::quoted(s) << ": '" << w.unwrap_err().message() << "'");
        EV("no name");
        return;
    }
    auto& p = r.unwrap();
    CHECK(p.rest.size() == s.size() - want && (p.rest.empty() || p.rest.data() == (const char*)x.data() + want), "rest", "after " << vf::quoted(p.value.to_string()) << " " << p.rest.size() << " bytes of " << vf::quoted(s) << " are left, expected " << s.size() - want);
    CHECK(p.value.to_string() == s.substr(0, want), "name", "name " << vf::quoted(p.value.to_string()) << " in " << vf::quoted(s));
    if (w.is_err()) { CHECK(w.unwrap_err() == net::make_error_code(net::Error::fqdn_not_fully_parsed), "whole.error", vf::quoted(s) << ": '" << w.unwrap_err().message() << "'"); EV("partial names"); }
    else { CHECK(w.unwrap() == p.value, "whole.name", "names differ for " << vf::quoted(s)); EV("whole names"); }
    x.release();
    CHECK(p.value.to_string() == s.substr(0, want), "owned", "the name depends on its text: " << vf::quoted(s));
    // Equality is equality of texts.
    std::string other = s.substr(0, want);
    other[c.rng.below(other.size())] ^= 0x20;
    auto o = net::Fqdn::from_string(other);
    if (o.is_ok()) { CHECK((o.unwrap() == p.value) == (other == s.substr(0, want)), "equal", vf::quoted(other) << " and " << vf::quoted(s)); }
    c.sample(s);
}
}
GROUP("P31", "names", 12000, 1500000) {
    std::string s = tref::random_fqdn(c.rng);
    judge_name(c, s);
    for (unsigned k = 0; k < 4; ++k) {
        std::string m = s;
        unsigned n = 1 + (unsigned)c.rng.below(3);
        while (n--) { tref::mutate(c.rng, m, "aZ09_--..-. \t/:"); }
        judge_name(c, m);
    }
}
// Every string over the characters that matter.
GROUP("P31", "all short", 5 * 5 * 5, 5 * 5 * 5) {
    static const char set[] = {'a', '0', '-', '.', '!'};
    size_t max = c.thorough ? 8 : 6;
    // The first three characters come from the index, the rest is enumerated.
    std::string head{set[c.idx % 5], set[c.idx / 5 % 5], set[c.idx / 25]};
    if (c.idx < 5) { judge_name(c, ""); judge_name(c, head.substr(0, 1)); judge_name(c, head.substr(0, 1) + "."); judge_name(c, head.substr(0, 1) + "-"); }
    std::vector<std::string> level{head};
    for (size_t n = 3;; ++n) {
        for (auto& s : level) { judge_name(c, s); EV("short texts enumerated"); }
        if (n == max) { break; }
        std::vector<std::string> next;
        for (auto& s : level) { for (char ch : set) { next.push_back(s + ch); } }
        level = std::move(next);
    }
}
// Every length of a label, of a name and every number of labels.
GROUP("P31", "lengths", 400, 2000) {
    size_t n = c.idx + 1;
    static const std::string ld = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    auto label = [&](size_t len) {
        std::string l;
        while (l.size() < len) { l += c.rng.chance(1, 9) && !l.empty() && l.size() + 1 < len ? '-' : ld[c.rng.below(ld.size())]; }
        l[0] = ld[c.rng.below(52)];
        return l;
    };
    std::string one = label(n), many = label(1), total = label(std::min<size_t>(n, 1 + c.rng.below(63)));
    for (size_t i = 1; i < n; ++i) { many += "." + label(1); }
    while (total.size() < n) { total += total.size() + 1 == n ? label(1) : "." + label(std::min<size_t>(n - total.size() - 1, 1 + c.rng.below(63))); }
    for (auto& s : {one, many, total}) {
        judge_name(c, s);
        for (auto* tail : {".", "-", ".-", "..", "-.a", ":", " a", ".a"}) { judge_name(c, s + tail); }
        judge_name(c, label(1 + c.rng.below(70)) + "." + s);
        judge_name(c, s + "." + label(1 + c.rng.below(70)) + "!");
    }
    EV("lengths enumerated");
}
// Names longer than narrower integers count.
GROUP("P31", "very long", 48, 480) {
    static const size_t K[] = {255, 256, 257, 511, 1000, 4096, 32767, 32768, 65535, 65536, 65537, 70000};
    size_t n = K[c.idx % 12] + (c.idx < 12 ? 0 : c.rng.below(40));
    size_t most = c.idx % 4 == 0 ? n : c.idx % 4 == 1 ? 1 : 63; // length of a label
    static const std::string ld = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    std::string s;
    while (s.size() < n) {
        size_t left = n - s.size() - (s.empty() ? 0 : 1), len = std::min(left, 1 + c.rng.below(most));
        if (len == 0) { break; }
        if (!s.empty()) { s += '.'; }
        s += ld[c.rng.below(62)];
        while (--len) { s += len > 1 && c.rng.chance(1, 9) ? '-' : ld[c.rng.below(62)]; }
    }
    judge_name(c, s);
    for (auto* tail : {".", "-", ".-", "..", "-.a", ":", " a", ".a"}) { judge_name(c, s + tail); }
    std::string m = s;
    m[c.rng.below(m.size())] = "!.- \0"[c.rng.below(5)];
    judge_name(c, m);
    judge_name(c, s + "." + m);
    EV("very long names");
}
GROUP("P31", "characters", 256, 256) {
    char ch = (char)c.idx;
    for (auto* pat : {"?", "a?", "?a", "a?a", "a.?", "a.?a", "a.b?c", "a-?", "a?-", "-?", ".?"}) {
        std::string s(pat);
        for (auto& x : s) { if (x == '?') { x = ch; } }
        judge_name(c, s);
    }
    EV("characters");
}
