// Random candidate lines.
#pragma once
#include "textref.hpp"

namespace icegen {

using vf::Rng;

struct Fields {
    std::string prefix = "candidate:", foundation, component, transport, priority, addr, port, typ = "typ", type;
    std::vector<std::pair<std::string, std::string>> more;
    std::string text(const char* sep = " ") const {
        std::string s = prefix + foundation + sep + component + sep + transport + sep + priority + sep + addr + sep + port + sep + typ + sep + type;
        for (auto& [n, v] : more) { s += sep + n + sep + v; }
        return s;
    }
};
inline std::string no_spaces(Rng& r, size_t n) { std::string s; while (s.size() < n) { char ch = r.chance(1, 4) ? (char)r.u8() : (char)r.range(33, 126); if (ch != ' ') { s += ch; } } return s; }
inline std::string zeros(Rng& r, std::string s, size_t max) { while (s.size() < max && r.chance(1, 6)) { s = "0" + s; } return s; }
inline std::string random_addr(Rng& r) { return r.chance(2, 3) ? tref::random_ip_text(r) : tref::random_fqdn(r); }
inline Fields random_fields(Rng& r) {
    static const std::string chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/";
    Fields f;
    size_t n = r.chance(1, 4) ? 32 : 1 + r.below(32);
    while (f.foundation.size() < n) { f.foundation += r.pick(chars); }
    f.component = zeros(r, std::to_string(r.chance(1, 4) ? r.one_of<unsigned>({1, 2, 255, 256}) : 1 + (unsigned)r.below(256)), 3);
    f.transport = tref::random_case(r, "udp");
    f.priority = zeros(r, std::to_string(std::max<uint32_t>(1, (uint32_t)r.skewed64())), 10);
    f.addr = random_addr(r);
    f.port = zeros(r, std::to_string((uint16_t)r.skewed64()), 5);
    f.type = tref::random_case(r, r.one_of<std::string>({"host", "srflx", "prflx", "relay"}));
    while (r.chance(1, 3)) {
        std::string name = r.chance(1, 3) ? r.one_of<std::string>({"generation", "ufrag", "network-id", "tcptype", "raddr2", "rpor", "Raddr", "typ", "candidate:"}) : no_spaces(r, 1 + r.below(8));
        if (r.chance(1, 5)) { // what others send
            static const std::vector<std::pair<std::string, std::string>> known = {{"generation", "0"}, {"generation", "1"}, {"network-id", "1"}, {"network-id", "0"}, {"network-cost", "10"}, {"network-cost", "999"}, {"network-cost", "0"},
                {"tcptype", "active"}, {"tcptype", "passive"}, {"tcptype", "so"}, {"ufrag", "abcd"}, {"vpn", "0"}, {"related", "-"}, {"typ", "host"}, {"typ", "relay"}, {"port", "9"}, {"a", "b"}, {"0", "0"}};
            f.more.push_back(known[r.below(known.size())]);
            if (r.chance(1, 6)) { f.more.push_back(f.more.back()); }
            continue;
        }
        if (name != "raddr" && name != "rport") { f.more.emplace_back(name, r.chance(1, 8) ? r.one_of<std::string>({"raddr", "rport", "typ"}) : no_spaces(r, 1 + r.below(r.chance(1, 10) ? 100 : 10))); }
    }
    if (r.chance(2, 5)) { f.more.insert(f.more.begin() + (long)(r.coin() ? 0 : r.below(f.more.size() + 1)), {"raddr", random_addr(r)}); }
    if (r.chance(2, 5)) { f.more.insert(f.more.begin() + (long)r.below(f.more.size() + 1), {"rport", zeros(r, std::to_string((uint16_t)r.skewed64()), 5)}); }
    return f;
}

}
