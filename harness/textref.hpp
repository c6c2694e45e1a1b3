// Independent recognisers of textual addresses, ports, names and candidate
// fields, and generators of such texts.
#pragma once
#include "common.hpp"

namespace tref {

using vf::Bytes;
using vf::Rng;
using SV = std::string_view;

inline bool digit(char c) { return c >= '0' && c <= '9'; }
inline bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
inline bool same(SV a, SV b) {
    if (a.size() != b.size()) { return false; }
    for (size_t i = 0; i < a.size(); ++i) { if (low(a[i]) != low(b[i])) { return false; } }
    return true;
}

inline std::vector<SV> cut(SV s, char sep) { // all parts, also empty ones
    std::vector<SV> r;
    size_t from = 0;
    for (size_t i = 0; i <= s.size(); ++i) { if (i == s.size() || s[i] == sep) { r.push_back(s.substr(from, i - from)); from = i + 1; } }
    return r;
}

// Dotted decimal, no leading zeros. Empty result: not an address.
inline Bytes ip4(SV s) {
    auto parts = cut(s, '.');
    Bytes r;
    if (parts.size() != 4) { return {}; }
    for (auto p : parts) {
        if (p.empty() || p.size() > 3 || (p.size() > 1 && p[0] == '0')) { return {}; }
        unsigned v = 0;
        for (char c : p) { if (!digit(c)) { return {}; } v = 10 * v + (unsigned)(c - '0'); }
        if (v > 255) { return {}; }
        r.push_back((uint8_t)v);
    }
    return r;
}
// Sequence of groups, possibly ended by an IPv4 address; false if malformed.
inline bool groups(SV s, bool v4_allowed, Bytes& out) {
    if (s.empty()) { return true; }
    auto parts = cut(s, ':');
    for (size_t i = 0; i < parts.size(); ++i) {
        SV p = parts[i];
        if (i + 1 == parts.size() && p.find('.') != SV::npos) {
            if (!v4_allowed) { return false; }
            Bytes v = ip4(p);
            if (v.empty()) { return false; }
            out.insert(out.end(), v.begin(), v.end());
            continue;
        }
        if (p.empty() || p.size() > 4) { return false; }
        unsigned v = 0;
        for (char c : p) {
            c = low(c);
            if (digit(c)) { v = 16 * v + (unsigned)(c - '0'); }
            else if (c >= 'a' && c <= 'f') { v = 16 * v + (unsigned)(c - 'a' + 10); }
            else { return false; }
        }
        out.push_back((uint8_t)(v >> 8));
        out.push_back((uint8_t)v);
    }
    return true;
}
inline Bytes ip6(SV s) {
    size_t pos = s.find("::");
    Bytes a, b;
    if (pos == SV::npos) {
        if (s.empty() || !groups(s, true, a) || a.size() != 16) { return {}; }
        return a;
    }
    if (!groups(s.substr(0, pos), false, a) || !groups(s.substr(pos + 2), true, b)) { return {}; }
    if (a.size() + b.size() > 14) { return {}; } // "::" stands for at least one group
    Bytes r = a;
    r.resize(16 - b.size(), 0);
    r.insert(r.end(), b.begin(), b.end());
    return r;
}
inline Bytes ip(SV s) { Bytes r = ip4(s); return r.empty() ? ip6(s) : r; }

inline int port(SV s) { // -1: none
    if (s.empty() || s.size() > 5) { return -1; }
    int v = 0;
    for (char c : s) { if (!digit(c)) { return -1; } v = 10 * v + (c - '0'); }
    return v > 65535 ? -1 : v;
}

inline bool let_dig(char c) { return alpha(c) || digit(c) || c == '_'; }
// Length of the longest prefix that is a name; 0: none.
inline size_t fqdn_prefix(SV s) {
    // label ("." label)* ["."]; a label ends with its last letter or digit before
    // anything but letters, digits and hyphens
    size_t end = 0, i = 0;
    for (;;) {
        if (i >= s.size() || !let_dig(s[i])) { return end; }
        size_t last = i;
        for (size_t k = i; k < s.size() && (let_dig(s[k]) || s[k] == '-'); ++k) { if (let_dig(s[k])) { last = k; } }
        end = last + 1;
        if (end >= s.size() || s[end] != '.') { return end; }
        i = ++end;
    }
}

// ---- generators

inline std::string show4(const Bytes& b) {
    return std::to_string(b[0]) + "." + std::to_string(b[1]) + "." + std::to_string(b[2]) + "." + std::to_string(b[3]);
}
inline std::string random_case(Rng& r, std::string s) { for (auto& c : s) { if (alpha(c) && r.coin()) { c ^= 0x20; } } return s; }
// Some text of the address.
inline std::string text6(Rng& r, const Bytes& b) {
    std::vector<std::string> g;
    size_t n = r.chance(1, 4) ? 6 : 8;
    for (size_t i = 0; i < n; ++i) {
        unsigned v = (unsigned)b[2 * i] << 8 | b[2 * i + 1];
        char t[8];
        static const char* fmt[] = {"%x", "%02x", "%03x", "%04x"};
        std::snprintf(t, sizeof t, r.coin() ? "%x" : fmt[r.below(4)], v);
        g.push_back(random_case(r, t));
    }
    // A run of zero groups that may be left out.
    size_t from = 0, len = 0;
    if (r.chance(3, 4)) {
        std::vector<std::pair<size_t, size_t>> runs;
        for (size_t i = 0; i < n; ++i) { for (size_t k = i; k < n && b[2 * k] == 0 && b[2 * k + 1] == 0; ++k) { runs.emplace_back(i, k - i + 1); } }
        if (!runs.empty()) { auto& x = r.pick(runs); from = x.first; len = x.second; }
    }
    std::string s;
    if (n == 6) { g.push_back(show4(Bytes(b.begin() + 12, b.end()))); }
    for (size_t i = 0; i < g.size(); ) {
        if (len > 0 && i == from) { s += s.empty() || s.back() != ':' ? "::" : ":"; i += len; len = 0; if (i >= g.size()) { break; } s += g[i++]; if (i < g.size()) { s += ":"; } continue; }
        s += g[i++];
        if (i < g.size()) { s += ":"; }
    }
    return s;
}
inline Bytes random_ip(Rng& r) {
    Bytes b = r.bytes(r.coin() ? 4 : 16);
    if (r.coin()) { for (auto& x : b) { if (r.chance(2, 3)) { x = 0; } } }
    if (r.chance(1, 8)) { for (size_t i = 0; i < b.size(); ++i) { b[i] = i < 10 ? 0 : i < 12 ? 0xff : r.u8(); } }
    if (r.chance(1, 8)) { for (auto& x : b) { x = r.one_of<uint8_t>({0, 1, 9, 10, 99, 100, 199, 200, 249, 250, 255}); } }
    if (r.chance(1, 6)) { b = vf::special_ip(r); }
    return b;
}
inline std::string random_ip_text(Rng& r) { Bytes b = random_ip(r); return b.size() == 4 ? show4(b) : text6(r, b); }
inline std::string random_fqdn(Rng& r) {
    static const std::string ld = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
    std::string s;
    unsigned n = 1 + (unsigned)r.below(4);
    while (n--) {
        size_t len = 1 + r.below(r.chance(1, 10) ? 70 : 8);
        std::string l;
        while (l.size() < len) { l += r.chance(1, 5) && !l.empty() && l.size() + 1 < len ? '-' : r.pick(ld); }
        s += l;
        if (n || r.chance(1, 8)) { s += '.'; }
    }
    return s;
}
inline std::string random_text(Rng& r, size_t n, SV alphabet = {}) {
    std::string s;
    while (s.size() < n) { s += alphabet.empty() || r.chance(1, 12) ? (char)r.u8() : alphabet[r.below(alphabet.size())]; }
    return s;
}
inline void mutate(Rng& r, std::string& s, SV alphabet) {
    switch (s.empty() ? 0 : r.below(6)) {
    case 0: s.insert(s.begin() + (long)r.below(s.size() + 1), r.chance(1, 4) ? (char)r.u8() : alphabet[r.below(alphabet.size())]); break;
    case 1: s.erase(r.below(s.size()), 1); break;
    case 2: s[r.below(s.size())] = r.chance(1, 4) ? (char)r.u8() : alphabet[r.below(alphabet.size())]; break;
    case 3: { size_t i = r.below(s.size()); s.insert(i, s.substr(i, 1 + r.below(4))); break; }
    case 4: s.resize(r.below(s.size() + 1)); break;
    default: if (s.size() > 1) { std::swap(s[r.below(s.size())], s[r.below(s.size())]); }
    }
}

}
