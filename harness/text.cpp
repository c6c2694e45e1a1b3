// P34: splitting, joining, token streams, flattening.
#include <deque>
#include <list>
#include "common.hpp"
#include "util/util_string_view.hpp"
#include "util/util_token_stream.hpp"
#include <vector>
#include "util/util_flat.hpp"

namespace sv = freewebrtc::util::string_view;
using freewebrtc::util::TokenStream;
using freewebrtc::Result;

namespace {

std::string any_text(vf::Rng& r, char sep) {
    std::string s;
    size_t n = r.chance(1, 12) ? 0 : r.below(r.chance(1, 20) ? 400 : 24);
    unsigned density = 2 + (unsigned)r.below(6);
    for (size_t i = 0; i < n; ++i) { s += r.chance(1, density) ? sep : r.chance(1, 6) ? (char)r.u8() : (char)('a' + r.below(4)); }
    if (r.chance(1, 6)) { s += sep; }
    if (r.chance(1, 10)) { s += sep; }
    if (r.chance(1, 8)) { s = sep + s; }
    return s;
}

// Parts by the plain definition: between separators; a trailing separator ends the
// last part and does not start another one.
std::vector<std::string> ref_split(const std::string& s, char sep) {
    std::vector<std::string> r;
    std::string cur;
    for (char ch : s) { if (ch == sep) { r.push_back(cur); cur.clear(); } else { cur += ch; } }
    if (!cur.empty()) { r.push_back(cur); }
    return r;
}

}

GROUP("P34", "split", 25000, 500000) {
    char sep = c.rng.chance(1, 3) ? (char)c.rng.u8() : " ,:\0"[c.rng.below(4)];
    std::string s = any_text(c.rng, sep);
    vf::Exact x(s);
    auto parts = sv::split_all(x.sv(), sep);
    auto ref = ref_split(s, sep);
    auto say = [&] { return vf::quoted(s) + " by " + vf::quoted(std::string(1, sep)); };
    CHECK(parts.size() == ref.size(), "split.count", say() << ": " << parts.size() << " parts and not " << ref.size());
    size_t pos = 0;
    for (size_t i = 0; i < parts.size(); ++i) {
        CHECK(parts[i] == ref[i], "split.part", say() << ": part " << i << " is " << vf::quoted(parts[i]));
        CHECK(parts[i].find(sep) == std::string_view::npos, "split.separator", say());
        if (!parts[i].empty()) { CHECK(parts[i].data() == x.sv().data() + pos, "split.inside", say() << ": part " << i << " is not a view of the text"); }
        pos += parts[i].size() + 1;
    }
    EVN("parts", parts.size());
    // Other containers give the same.
    auto l = sv::split_all<std::list>(x.sv(), sep);
    auto d = sv::split_all<std::deque>(x.sv(), sep);
    CHECK(std::equal(l.begin(), l.end(), parts.begin(), parts.end()) && std::equal(d.begin(), d.end(), parts.begin(), parts.end()), "split.container", say());
    // Join is the inverse.
    std::string sepstr(1, sep);
    std::string j = sv::join(parts, sepstr);
    bool trailing = !s.empty() && s.back() == sep;
    CHECK(j == (trailing ? s.substr(0, s.size() - 1) : s), "join.inverse", say() << ": joined " << vf::quoted(j));
    CHECK(sv::join(l, sepstr) == j, "join.container", say());
    std::string longsep = "<" + std::to_string(c.rng.below(1000)) + ">", want;
    for (size_t i = 0; i < ref.size(); ++i) { want += (i ? longsep : "") + ref[i]; }
    CHECK(sv::join(ref, longsep) == want, "join.separator", say() << ": " << vf::quoted(sv::join(ref, longsep)));
    // One step.
    auto one = sv::split(x.sv(), sep);
    size_t p = s.find(sep);
    CHECK(one.is_some() == (p != std::string::npos), "split.once", say());
    if (one.is_some()) {
        auto [a, b] = one.unwrap();
        CHECK(a == s.substr(0, p) && b == s.substr(p + 1), "split.once", say() << ": " << vf::quoted(a) << " and " << vf::quoted(b));
        CHECK(a.size() + 1 + b.size() == s.size(), "split.conserve", say());
        EV("splits");
    }
    // Prefix removal.
    size_t n = c.rng.chance(1, 4) ? c.rng.skewed64() : c.rng.below(s.size() + 3);
    auto rest = sv::remove_prefix(x.sv(), n);
    CHECK(rest.is_some() == (n <= s.size()), "prefix", say() << " without " << n);
    if (rest.is_some()) { CHECK(rest.unwrap() == s.substr(n), "prefix", say() << " without " << n); }
    if (parts.size() > 1) { c.distinct(vf::Hash().add(s).add((uint8_t)sep)); }
    if (c.idx < 24) { c.sample(say() + ": " + std::to_string(parts.size()) + " parts"); }
}

namespace {

// Reads the stream by random calls against the model; owns what it needs.
struct Reader {
    TokenStream stream;
    size_t pos;
};

void read_one(vf::Ctx& c, Reader& r, const std::vector<std::string>& want, const std::string& id) {
    auto say = [&] { return id + " at token " + std::to_string(r.pos) + " of " + std::to_string(want.size()); };
    bool left = r.pos < want.size();
    auto missing = [&](const freewebrtc::Error& e) {
        CHECK(std::string(e.category().name()) == "token stream error" && e.value() == 1 && e.code(), "stream.missing", say() << ": " << e.message());
        EV("missing tokens reported");
    };
    switch (c.rng.below(5)) {
    case 0: {
        auto t = r.stream.optional();
        CHECK(t.is_some() == left, "stream.optional", say());
        if (left) { CHECK(t.unwrap() == want[r.pos], "stream.token", say() << ": " << vf::quoted(t.unwrap())); ++r.pos; EV("tokens read"); }
        return;
    }
    case 1: {
        auto t = r.stream.required();
        CHECK(t.is_ok() == left, "stream.required", say());
        if (!left) { return missing(t.unwrap_err()); }
        CHECK(t.unwrap() == want[r.pos], "stream.token", say() << ": " << vf::quoted(t.unwrap()));
        ++r.pos; EV("tokens read");
        return;
    }
    case 2: {
        std::string expect = left && c.rng.coin() ? want[r.pos] : "typ";
        if (left && c.rng.chance(1, 6)) { expect = want[r.pos] + (c.rng.coin() ? "x" : std::string(1, '\0')); }
        auto t = r.stream.required(std::string_view(expect));
        if (!left) { CHECK(t.is_err(), "stream.expected", say()); return missing(t.unwrap_err()); }
        CHECK(t.is_ok() == (want[r.pos] == expect), "stream.expected", say() << ": expected " << vf::quoted(expect));
        if (t.is_err()) {
            const auto& e = t.unwrap_err();
            CHECK(std::string(e.category().name()) == "token stream error" && e.value() == 2 && e.code().message() != std::error_code(1, e.category()).message(), "stream.mismatch", say() << ": " << e.message());
            EV("mismatches reported");
        }
        ++r.pos; EV("tokens read");
        return;
    }
    case 3: {
        int calls = 0;
        std::string got;
        auto t = r.stream.required_bind([&](const std::string_view& v) { ++calls; got = std::string(v); return Result<size_t>{v.size()}; });
        CHECK(t.is_ok() == left && calls == (left ? 1 : 0), "stream.bind", say() << ": " << calls << " calls");
        if (!left) { return missing(t.unwrap_err()); }
        CHECK(got == want[r.pos] && t.unwrap() == got.size(), "stream.token", say() << ": " << vf::quoted(got));
        ++r.pos; EV("tokens read");
        return;
    }
    default: {
        auto ec = std::make_error_code(std::errc::bad_message);
        auto t = r.stream.required_bind([&](const std::string_view&) -> Result<int> { return ec; });
        CHECK(t.is_err(), "stream.bind", say());
        if (!left) { return missing(t.unwrap_err()); }
        CHECK(t.unwrap_err() == ec, "stream.bind-error", say() << ": " << t.unwrap_err().message());
        ++r.pos; EV("tokens read");
        return;
    }
    }
}

}

GROUP("P34", "stream", 12000, 300000) {
    size_t n = c.rng.below(9);
    std::vector<std::string> want;
    for (size_t i = 0; i < n; ++i) { want.push_back(c.rng.chance(1, 5) ? "" : c.rng.chance(1, 4) ? "typ" : "t" + std::to_string(i) + std::string(c.rng.below(30), 'x')); }
    TokenStream::Container views(want.begin(), want.end());
    auto keep = std::make_unique<TokenStream::Container>(views);
    std::vector<std::unique_ptr<Reader>> rs;
    if (c.rng.coin()) { rs.push_back(std::make_unique<Reader>(Reader{TokenStream(*keep), 0})); }
    else { rs.push_back(std::make_unique<Reader>(Reader{TokenStream(TokenStream::Container(views)), 0})); }
    if (c.rng.coin()) { // the container that it was made of is not needed
        if (!keep->empty()) { (*keep)[0] = "overwritten"; }
        keep.reset();
    }
    unsigned steps = (unsigned)c.rng.below(3 * n + 6);
    vf::Hash h;
    for (auto& t : want) { h.add(t); }
    for (unsigned i = 0; i < steps; ++i) {
        size_t k = c.rng.below(rs.size());
        if (c.rng.chance(1, 5) && rs.size() < 5) { // copy in the middle; sometimes the original goes away
            rs.push_back(std::make_unique<Reader>(*rs[k]));
            EV("streams copied");
            if (c.rng.chance(1, 3)) { rs.erase(rs.begin() + (long)k); }
            continue;
        }
        read_one(c, *rs[k], want, "stream");
        h.add(k).add(rs[k]->pos);
    }
    // To the end, each.
    for (auto& r : rs) {
        while (r->pos < want.size()) { read_one(c, *r, want, "rest"); }
        for (int i = 0; i < 3; ++i) { read_one(c, *r, want, "end"); }
    }
    if (n > 0) { c.distinct(h); }
    if (c.idx < 32) { c.sample(std::to_string(n) + " tokens, " + std::to_string(rs.size()) + " streams, " + std::to_string(steps) + " reads"); }
}

// Every number of tokens and every length of a token.
GROUP("P34", "lengths", 700, 5000) {
    size_t n = c.idx;
    char sep = " ,:;"[c.rng.below(4)];
    std::vector<std::string> want;
    std::string all;
    for (size_t i = 0; i < n; ++i) { want.push_back(c.rng.chance(1, 9) ? "" : "t" + std::to_string(i % 100)); }
    if (!want.empty() && want.back().empty()) { want.back() = "x"; }
    want.push_back("y" + std::string(n, 'z')); // one of this length, anywhere
    std::swap(want.back(), want[c.rng.below(want.size())]);
    if (want.back().empty()) { want.back() = "x"; }
    for (size_t i = 0; i < want.size(); ++i) { all += (i ? std::string(1, sep) : "") + want[i]; }
    vf::Exact x(all);
    auto parts = sv::split_all(x.sv(), sep);
    CHECK(parts.size() == want.size() && std::equal(parts.begin(), parts.end(), want.begin()), "split.count", want.size() << " tokens, " << parts.size() << " parts");
    CHECK(sv::join(parts, std::string(1, sep)) == all, "join.inverse", want.size() << " tokens");
    EVN("parts", parts.size());
    Reader r{TokenStream(TokenStream::Container(parts.begin(), parts.end())), 0};
    while (r.pos < want.size()) { read_one(c, r, want, "long"); }
    for (int i = 0; i < 3; ++i) { read_one(c, r, want, "long end"); }
    std::vector<std::vector<std::string>> v(1);
    for (auto& w : want) { while (c.rng.chance(1, 3)) { v.emplace_back(); } v.back().push_back(w); }
    CHECK(freewebrtc::util::flat_vec(v) == want, "flat", "of " << want.size() << " in " << v.size());
    EV("lengths enumerated");
    c.distinct(vf::Hash().add(all));
}
GROUP("P34", "flat", 3000, 50000) {
    std::vector<std::vector<std::string>> v(c.rng.below(8));
    std::vector<std::string> want;
    int n = 0;
    for (auto& x : v) { x.resize(c.rng.chance(1, 3) ? 0 : c.rng.below(6)); for (auto& y : x) { y = std::to_string(n++); want.push_back(y); } }
    CHECK(freewebrtc::util::flat_vec(v) == want, "flat", "of " << want.size() << " in " << v.size());
    std::vector<std::vector<uint8_t>> b;
    vf::Bytes wb;
    for (size_t i = c.rng.below(6); i > 0; --i) { b.push_back(c.rng.bytes(c.rng.below(50))); wb.insert(wb.end(), b.back().begin(), b.back().end()); }
    CHECK(freewebrtc::util::flat_vec(b) == wb, "flat", "bytes");
    EVN("flattened", want.size());
    if (want.size() > 1) { c.distinct(vf::Hash().add(want.size()).add(v.size()).add(wb)); }
}

// Very many parts, tokens and containers.
GROUP("P34", "very many", 24, 240) {
    static const size_t K[] = {255, 256, 1001, 32768, 65535, 65536, 65537, 65545, 80000, 131075, 5000, 70000};
    size_t n = K[c.idx % 12] + (c.idx < 12 ? 0 : c.rng.below(20));
    char sep = " ,:;"[c.rng.below(4)];
    std::string sepstr(1, sep), all;
    std::vector<std::string> want;
    for (size_t i = 0; i < n; ++i) { want.push_back(c.rng.chance(1, 9) ? "" : std::string(1, (char)('a' + c.rng.below(26)))); }
    want[c.rng.below(n)] = std::string(n, 'z');
    want.back() = "end";
    for (size_t i = 0; i < n; ++i) { if (i) { all += sep; } all += want[i]; }
    vf::Exact x(all);
    auto parts = sv::split_all(x.sv(), sep);
    CHECK(parts.size() == n && std::equal(parts.begin(), parts.end(), want.begin()), "split.count", n << " tokens, " << parts.size() << " parts");
    CHECK(sv::join(parts, sepstr) == all, "join.inverse", n << " tokens");
    EVN("parts", parts.size());
    Reader r{TokenStream(TokenStream::Container(parts.begin(), parts.end())), 0};
    while (r.pos < n) { read_one(c, r, want, "many"); }
    for (int i = 0; i < 3; ++i) { read_one(c, r, want, "many end"); }
    // Cut at a byte far in.
    auto one = sv::split(x.sv(), 'e');
    CHECK(one.is_some() == (all.find('e') != std::string::npos), "split.once", n << " tokens");
    if (one.is_some()) { CHECK(one.unwrap().first == all.substr(0, all.find('e')) && one.unwrap().second == all.substr(all.find('e') + 1), "split.once", n << " tokens"); }
    std::string far(n, 'q');
    far += sep;
    far += all;
    vf::Exact y(far);
    auto cut = sv::split(y.sv(), sep);
    CHECK(cut.is_some() && cut.unwrap().first.size() == n && cut.unwrap().second == all, "split.once", "separator after " << n << " bytes");
    auto rest = sv::remove_prefix(y.sv(), n + 1);
    CHECK(rest.is_some() && rest.unwrap() == all, "prefix", "of " << n + 1 << " bytes");
    // As many containers; and as many elements in one of them.
    std::vector<std::vector<std::string>> v(1);
    for (auto& w : want) { while (c.rng.chance(1, 3)) { v.emplace_back(); } if (c.rng.chance(2, 3)) { v.emplace_back(); } v.back().push_back(w); }
    CHECK(freewebrtc::util::flat_vec(v) == want, "flat", "of " << want.size() << " in " << v.size());
    std::vector<std::vector<std::string>> w = {{"a"}, want, {}, {"b", "c"}};
    auto f = freewebrtc::util::flat_vec(w);
    CHECK(f.size() == n + 3 && f[0] == "a" && f[n + 2] == "c" && std::equal(want.begin(), want.end(), f.begin() + 1), "flat", "of " << n + 3 << " in 4");
    EV("very many parts");
    c.distinct(vf::Hash().add(all));
}
