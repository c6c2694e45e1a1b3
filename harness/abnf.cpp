// P37: character classes and case-insensitive comparison.
#include <clocale>
#include "common.hpp"
#include "abnf/abnf.hpp"
#include "ice/ice_abnf.hpp"

namespace ab = freewebrtc::abnf;
namespace ia = freewebrtc::ice::abnf;

namespace {

bool alpha(unsigned b) {
    static const std::string l = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    return l.find((char)b) != std::string::npos;
}
bool digit(unsigned b) { static const std::string l = "0123456789"; return l.find((char)b) != std::string::npos; }
unsigned fold(unsigned char b) { return b >= 'A' && b <= 'Z' ? b + 32u : b; }
bool ref_eq(std::string_view a, std::string_view b) {
    if (a.size() != b.size()) { return false; }
    for (size_t i = 0; i < a.size(); ++i) { if (fold((unsigned char)a[i]) != fold((unsigned char)b[i])) { return false; } }
    return true;
}

bool eq(vf::Ctx& c, std::string_view a, std::string_view b) {
    vf::Exact x(a), y(b);
    bool r = ab::eq_string(x.sv(), y.sv());
    CHECK(r == ref_eq(a, b), "eq", vf::quoted(a) << " and " << vf::quoted(b) << " compare " << r);
    EV("comparisons");
    return r;
}

}

GROUP("P37", "classes", 256, 256) {
    char ch = (char)(unsigned char)c.idx;
    unsigned b = (unsigned)c.idx;
    CHECK(ab::is_ALPHA(ch) == (b != 0 && alpha(b)), "alpha", b);
    CHECK(ab::is_DIGIT(ch) == (b != 0 && digit(b)), "digit", b);
    CHECK(ia::is_ice_char(ch) == (b != 0 && (alpha(b) || digit(b) || b == '+' || b == '/')), "ice-char", b);
    CHECK(!(ab::is_ALPHA(ch) && ab::is_DIGIT(ch)), "disjoint", b);
    EV("bytes classified");
    c.distinct(vf::Hash().add(b));
    // All pairs of bytes, alone and as one of several characters.
    for (unsigned o = 0; o < 256; ++o) {
        char a1[1] = {ch}, b1[1] = {(char)o};
        eq(c, {a1, 1}, {b1, 1});
        char a3[3] = {'x', ch, 'Y'}, b3[3] = {'X', (char)o, 'y'};
        eq(c, {a3, 3}, {b3, 3});
        EV("byte pairs");
    }
}

GROUP("P37", "strings", 30000, 500000) {
    size_t n = c.rng.below(c.rng.chance(1, 10) ? 300 : 12);
    std::string a;
    for (size_t i = 0; i < n; ++i) { a += c.rng.coin() ? (char)c.rng.u8() : (char)("aAzZ@[`{09kK\xe4\xc4"[c.rng.below(14)]); }
    std::string b = a;
    for (auto& ch : b) { if (alpha((unsigned char)ch) && ch != 0 && c.rng.coin()) { ch ^= 0x20; } }
    std::string d = b;
    bool r1 = eq(c, a, b);
    CHECK(r1, "eq.case", vf::quoted(a) << " and " << vf::quoted(b));
    CHECK(eq(c, a, a), "eq.reflexive", vf::quoted(a));
    if (n) {
        size_t p = c.rng.below(3) == 0 ? n - 1 : c.rng.below(n);
        if (c.rng.coin()) { d[p] ^= (char)(1u << c.rng.below(8)); } else { d[p] = (char)c.rng.u8(); }
    }
    if (c.rng.chance(1, 4)) { if (c.rng.coin()) { d += (char)c.rng.u8(); } else if (!d.empty()) { d.pop_back(); } }
    bool r2 = eq(c, b, d), r3 = eq(c, d, b), r4 = eq(c, a, d);
    CHECK(r2 == r3, "eq.symmetric", vf::quoted(b) << " and " << vf::quoted(d));
    CHECK(!(r1 && r2) || r4, "eq.transitive", vf::quoted(a) << " and " << vf::quoted(d));
    if (a != b) { EV("equal but for case"); }
    if (!r2) { EV("different"); }
    if (n > 1) { c.distinct(vf::Hash().add(a).add(b).add(d)); }
    if (c.idx < 32) { c.sample(vf::quoted(a) + " / " + vf::quoted(b) + " / " + vf::quoted(d)); }
}

// Long texts: the whole of them counts.
GROUP("P37", "long", 120, 2400) {
    static const size_t K[] = {255, 256, 257, 32768, 65535, 65536, 65537, 65792, 131071, 131072, 200000, 1000};
    size_t n = K[c.idx % 12] + (c.idx < 12 ? 0 : c.rng.below(300));
    std::string a;
    for (size_t i = 0; i < n; ++i) { a += c.rng.coin() ? (char)c.rng.u8() : (char)("aAzZ@[`{09kK\xe4\xc4"[c.rng.below(14)]); }
    std::string b = a;
    for (auto& ch : b) { if (alpha((unsigned char)ch) && ch != 0 && c.rng.coin()) { ch ^= 0x20; } }
    CHECK(eq(c, a, b) && eq(c, b, a), "eq.case", n << " characters");
    // One difference, in every part of the text.
    for (size_t p : {(size_t)0, n / 2, n - 1, n - 2, n & 0xff, n & 0xffff, c.rng.below(n), n - 1 - c.rng.below(std::min<size_t>(n, 300))}) {
        if (p >= n) { continue; }
        std::string d = b;
        d[p] ^= (char)(1u << c.rng.below(8));
        eq(c, a, d);
        eq(c, d, a);
    }
    // Lengths that differ by a multiple of a power of two.
    for (size_t m : {(size_t)1, (size_t)256, (size_t)65536}) {
        if (m > n) { continue; }
        eq(c, a, b.substr(0, n - m));
        eq(c, b.substr(0, n - m), a);
        eq(c, a.substr(0, n - m), b);
    }
    EV("long texts");
    c.distinct(vf::Hash().add(a).add(b));
}
