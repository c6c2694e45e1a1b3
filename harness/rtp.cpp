// P25, P26, P27 and the RTP part of P12.
#include "stunlib.hpp"
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_error.hpp"
#include "rtp/rtp_payload_map.hpp"
#include <unordered_set>

using namespace lib;

namespace {

using Clocks = std::map<unsigned, unsigned>;

// A payload map of values known at run time only.
template<size_t... I> rtp::PayloadMap make_map(const std::vector<std::pair<unsigned, unsigned>>& v, std::index_sequence<I...>) {
    return rtp::PayloadMap{rtp::PayloadMap::InitPair{rtp::PayloadType::from_uint8((uint8_t)v[I].first).unwrap(), rtp::PayloadMapItem{rtp::ClockRate(v[I].second)}}...};
}
std::unique_ptr<rtp::PayloadMap> payload_map(const std::vector<std::pair<unsigned, unsigned>>& v) {
    auto mk = [&]<size_t N>() { return std::make_unique<rtp::PayloadMap>(make_map(v, std::make_index_sequence<N>())); };
    switch (v.size()) {
    case 0: return std::make_unique<rtp::PayloadMap>(rtp::PayloadMap::PairInitializer{});
    case 1: return mk.template operator()<1>();
    case 2: return mk.template operator()<2>();
    case 3: return mk.template operator()<3>();
    case 7: return mk.template operator()<7>();
    case 20: return mk.template operator()<20>();
    case 64: return mk.template operator()<64>();
    default: return mk.template operator()<128>();
    }
}
struct Map {
    Clocks clocks;
    std::unique_ptr<rtp::PayloadMap> map;
    explicit Map(Rng& r) {
        size_t n = r.one_of<size_t>({0, 1, 2, 3, 7, 20, 64, 128, 64, 64});
        std::vector<unsigned> all(128);
        for (unsigned i = 0; i < 128; ++i) { all[i] = i; }
        for (size_t i = 128; i > 1; --i) { std::swap(all[i - 1], all[r.below(i)]); }
        std::vector<std::pair<unsigned, unsigned>> v;
        for (size_t i = 0; i < n; ++i) {
            unsigned rate = r.chance(1, 2) ? r.one_of<unsigned>({8000, 48000, 90000, 0, 1, 0xffffffff, 0x80000000}) : r.u32();
            v.emplace_back(all[i], rate);
            clocks[all[i]] = rate;
        }
        map = payload_map(v);
    }
};

struct Want {
    bool ok = false;
    bool unspecified = false; // padding count of zero
    const char* reason = "";
    bool marker = false;
    unsigned pt = 0, seq = 0;
    uint32_t ts = 0, ssrc = 0;
    std::vector<uint32_t> csrcs;
    bool extension = false;
    unsigned profile = 0;
    size_t ext_off = 0, ext_size = 0, off = 0, size = 0, padding = 0;
};

// RFC 3550, 5.1
Want want(const Bytes& p, const Clocks& clocks) {
    Want w;
    auto reject = [&](const char* r) { w.reason = r; return w; };
    size_t n = p.size();
    if (n < 12) { return reject("invalid_size"); }
    if (p[0] >> 6 != 2) { return reject("invalid_version"); }
    unsigned cc = p[0] & 15;
    if (n < 12 + 4 * cc) { return reject("invalid_csrc"); }
    for (unsigned i = 0; i < cc; ++i) { w.csrcs.push_back(ref::get32(&p[12 + 4 * i])); }
    w.marker = p[1] >> 7;
    w.pt = p[1] & 127;
    w.seq = ref::get16(&p[2]);
    w.ts = ref::get32(&p[4]);
    w.ssrc = ref::get32(&p[8]);
    if (!clocks.count(w.pt)) { return reject("unknown_rtp_clock"); }
    size_t off = 12 + 4 * cc;
    if (p[0] & 0x10) {
        if (n < off + 4) { return reject("invalid_extension"); }
        w.extension = true;
        w.profile = ref::get16(&p[off]);
        w.ext_size = 4 * ref::get16(&p[off + 2]);
        w.ext_off = off + 4;
        off += 4 + w.ext_size;
        if (n < off) { return reject("invalid_extension"); }
    }
    if (p[0] & 0x20) {
        if (n == off) { return reject("invalid_padding"); }
        w.padding = p[n - 1];
        if (w.padding > n - off) { return reject("invalid_padding"); }
        w.unspecified = w.padding == 0;
    }
    w.off = off;
    w.size = n - off - w.padding;
    w.ok = true;
    return w;
}

bool reason_matches(const ::freewebrtc::Error& e, std::string_view r) {
    using E = rtp::Error;
    auto is = [&](E x) { return e == rtp::make_error_code(x); };
    if (r == "invalid_size") { return is(E::packet_is_too_short); }
    if (r == "invalid_version") { return is(E::unknown_packet_version); }
    if (r == "unknown_rtp_clock") { return is(E::unknown_rtp_clock); }
    if (r == "invalid_extension") { return is(E::invalid_extension_length); }
    if (r == "invalid_padding") { return is(E::invalid_packet_padding); }
    if (r == "invalid_csrc") { // has no code of its own
        return !is(E::unknown_packet_version) && !is(E::unknown_rtp_clock) && !is(E::invalid_payload_type) && !is(E::invalid_extension_length) && !is(E::invalid_packet_padding);
    }
    return false;
}

std::string differs(const rtp::Packet& k, const Want& w) {
    std::ostringstream o;
    auto& h = k.header;
    if ((bool)h.marker != w.marker) { o << "marker " << (bool)h.marker << "; "; }
    if (h.payload_type.value() != w.pt) { o << "payload type " << (unsigned)h.payload_type.value() << " instead of " << w.pt << "; "; }
    if (h.sequence.value() != w.seq) { o << "sequence " << h.sequence.value() << " instead of " << w.seq << "; "; }
    if (h.ssrc.value() != w.ssrc) { o << "ssrc " << h.ssrc.value() << " instead of " << w.ssrc << "; "; }
    if (h.timestamp.value() != w.ts) { o << "timestamp " << h.timestamp.value() << " instead of " << w.ts << "; "; }
    std::vector<uint32_t> cs;
    for (auto& s : h.csrcs) { cs.push_back(s.value()); }
    if (cs != w.csrcs) { o << "contributing sources (" << cs.size() << " instead of " << w.csrcs.size() << "); "; }
    if (h.maybe_extension.is_some() != w.extension) { o << "extension is " << (w.extension ? "missing; " : "invented; "); }
    else if (w.extension) {
        auto& e = h.maybe_extension.unwrap();
        if (e.profile_defined != w.profile) { o << "profile " << e.profile_defined << " instead of " << w.profile << "; "; }
        if (e.data.offset != w.ext_off || e.data.count != w.ext_size) { o << "extension at " << e.data.offset << "+" << e.data.count << " instead of " << w.ext_off << "+" << w.ext_size << "; "; }
    }
    if (k.payload.offset != w.off || k.payload.count != w.size) { o << "payload at " << k.payload.offset << "+" << k.payload.count << " instead of " << w.off << "+" << w.size << "; "; }
    return o.str();
}

Bytes random_packet(Rng& r, const Clocks& clocks) {
    Bytes p = r.bytes(12);
    unsigned cc = r.coin() ? 0 : (unsigned)r.below(16);
    bool ext = r.chance(2, 5), pad = r.chance(2, 5);
    p[0] = (uint8_t)(0x80 | cc | (ext ? 0x10 : 0) | (pad ? 0x20 : 0));
    if (!clocks.empty() && r.chance(15, 16)) { auto it = clocks.begin(); std::advance(it, r.below(clocks.size())); p[1] = (uint8_t)((p[1] & 0x80) | it->first); }
    auto add = [&](size_t n) { Bytes x = r.bytes(n); p.insert(p.end(), x.begin(), x.end()); };
    if (cc > 0 && r.chance(1, 4)) { // sources that repeat each other and the packet's own
        for (unsigned i = 0; i < cc; ++i) {
            if (r.coin()) { Bytes own(p.begin() + 8, p.begin() + 12); p.insert(p.end(), own.begin(), own.end()); }
            else { ref::put32(p, r.one_of<uint32_t>({0, 1, 0x80000000, 0xffffffff})); }
        }
    } else { add(4 * cc); }
    if (ext) {
        unsigned n = r.coin() ? (unsigned)r.below(4) : (unsigned)r.below(r.chance(1, 10) ? 400 : 40);
        ref::put16(p, r.u32() & 0xffff);
        ref::put16(p, n);
        add(4 * n);
    }
    add(r.chance(1, 4) ? 0 : r.below(r.chance(1, 10) ? 1500 : 40));
    if (pad) { unsigned n = (unsigned)(r.coin() ? r.range(1, 8) : r.range(1, 255)); add(n); p.back() = (uint8_t)n; }
    return p;
}
void mutate(Rng& r, Bytes& p) {
    if (p.empty()) { return; }
    switch (r.below(7)) {
    case 0: p.resize(r.below(p.size())); break;
    case 1: p[r.below(p.size())] = r.u8(); break;
    case 2: p[0] ^= (uint8_t)(1u << r.below(8)); break;
    case 3: p.back() = r.u8(); break;
    case 4: { Bytes x = r.bytes(1 + r.below(9)); p.insert(p.end(), x.begin(), x.end()); break; }
    case 5: { size_t o = 12 + 4 * (p[0] & 15); if (o + 4 <= p.size()) { unsigned v = r.chance(1, 3) ? r.u32() : (unsigned)((p.size() - o - 4) / 4 + r.below(3)); p[o + 2] = (uint8_t)(v >> 8); p[o + 3] = (uint8_t)v; } break; }
    default: p.resize(std::min<size_t>(p.size(), 12 + 4 * (p[0] & 15) + r.below(10))); break;
    }
}

// Parses and compares with the reference.
void judge(vf::Ctx& c, const Bytes& p, const Map& m) {
    Want w = want(p, m.clocks);
    rtp::ParseStat st;
    vf::Exact x(p, c.rng.below(8));
    auto res = rtp::Packet::parse(view(x), *m.map, st);
    auto hx = [&] { return p.size() > 300 ? vf::hex(Bytes(p.begin(), p.begin() + 64)) + "... (" + std::to_string(p.size()) + " bytes)" : vf::hex(p); };
    c.distinct(vf::Hash().add(p));
    if (w.ok && w.unspecified) {
        if (res.is_err()) { return; }
        EV("padding of zero");
    } else if (w.ok) { CHECK(res.is_ok(), "rejected", "well-formed packet is rejected (" << res.unwrap_err().message() << "): " << hx()); }
    if (!w.ok) {
        CHECK(res.is_err(), std::string("accepted.") + w.reason, "packet is accepted although " << w.reason << ": " << hx());
        CHECK(reason_matches(res.unwrap_err(), w.reason), std::string("reason.") + w.reason, "packet is rejected with '" << res.unwrap_err().message() << "' instead of " << w.reason << ": " << hx());
        vf::ev(std::string("rejected: ") + w.reason);
        return;
    }
    auto& k = res.unwrap();
    x.release(); // the header owns what it holds
    std::string diff = differs(k, w);
    CHECK(diff.empty(), "field", diff << hx());
    EV("accepted");
    if (w.extension) { EV("with extension"); }
    if (!w.csrcs.empty()) { EV("with contributing sources"); }
    if (w.padding) { EV("with padding"); }
    if (w.size == 0) { EV("empty payload"); }
    c.sample(hx());
}

}

GROUP("P25", "random", 40000, 4000000) {
    Map m(c.rng);
    for (unsigned k = 0; k < 4; ++k) {
        Bytes p = random_packet(c.rng, m.clocks);
        judge(c, p, m);
        unsigned n = 1 + (unsigned)c.rng.below(2);
        while (n--) { mutate(c.rng, p); }
        judge(c, p, m);
    }
}
// All values of the first two bytes.
GROUP("P25", "first bytes", 256, 256) {
    Map m(c.rng);
    for (unsigned b1 = 0; b1 < 256; ++b1) {
        for (unsigned k = 0; k < (c.thorough ? 16u : 2u); ++k) {
            Bytes p = random_packet(c.rng, m.clocks);
            p[0] = (uint8_t)c.idx;
            p[1] = (uint8_t)b1;
            judge(c, p, m);
            EV("first bytes enumerated");
        }
    }
}
// Every length of a packet, of the extension and of the padding.
GROUP("P25", "lengths", 1600, 66000) {
    Map m(c.rng);
    m.map = payload_map({{96, 90000}});
    m.clocks = {{96, 90000}};
    for (unsigned k = 0; k < 3; ++k) {
        unsigned cc = c.rng.chance(1, 4) ? 15 : (unsigned)c.rng.below(16);
        bool ext = k == 1 || c.rng.chance(1, 4), pad = k == 2 || c.rng.chance(1, 4);
        size_t words = k == 1 ? c.idx & 0xffff : c.rng.below(4);
        Bytes p = c.rng.bytes(12 + 4 * cc);
        p[0] = (uint8_t)(0x80 | cc | (ext ? 0x10 : 0) | (pad ? 0x20 : 0));
        p[1] = (uint8_t)((c.rng.coin() ? 0x80 : 0) | 96);
        auto add = [&](const Bytes& b) { p.insert(p.end(), b.begin(), b.end()); };
        if (ext) { add({c.rng.u8(), c.rng.u8(), (uint8_t)(words >> 8), (uint8_t)words}); add(c.rng.bytes(4 * words)); }
        add(c.rng.bytes(k == 0 ? c.idx : k == 2 ? c.rng.below(300) : c.rng.below(40)));
        if (pad) { size_t n = k == 2 ? 1 + c.idx % 255 : 1 + c.rng.below(8); add(Bytes(n, 0)); p.back() = (uint8_t)n; }
        judge(c, p, m);
        p.pop_back();
        judge(c, p, m);
        EV("lengths enumerated");
    }
}
// Number of sources x extension length x padding count x what is there.
GROUP("P25", "bounds", 16 * 4, 16 * 4) {
    std::vector<std::pair<unsigned, unsigned>> v{{96, 90000}};
    Map m(c.rng);
    m.map = payload_map(v);
    m.clocks = {{96, 90000}};
    unsigned cc = (unsigned)c.idx % 16;
    bool ext = c.idx & 16, pad = c.idx & 32;
    std::vector<unsigned> lens = ext ? std::vector<unsigned>{0, 1, 2, 3, 7, 8, 255, 256, 0x3fff, 0x4000, 0x7fff, 0xffff} : std::vector<unsigned>{0};
    std::vector<unsigned> pads = pad ? std::vector<unsigned>{1, 2, 3, 4, 5, 8, 9, 127, 128, 254, 255} : std::vector<unsigned>{0};
    for (unsigned len : lens) {
        for (unsigned n : pads) {
            size_t need = 12 + 4 * cc + (ext ? 4 + 4 * (size_t)len : 0);
            std::vector<size_t> sizes;
            for (int d = -9; d <= 9; ++d) { sizes.push_back(need + d); sizes.push_back(need + n + d); }
            for (size_t i = 0; i < 12 + 4 * cc + 6; ++i) { if (len == lens[0] && n == pads[0]) { sizes.push_back(i); } }
            for (size_t s : sizes) {
                if (s > 70000 * 4) { continue; }
                if (!c.thorough && s > 3000 && c.rng.chance(3, 4)) { continue; }
                Bytes p = c.rng.bytes(s);
                if (s > 0) { p[0] = (uint8_t)(0x80 | cc | (ext ? 0x10 : 0) | (pad ? 0x20 : 0)); }
                if (s > 1) { p[1] = (uint8_t)((p[1] & 0x80) | 96); }
                if (pad && s > need) { p[s - 1] = (uint8_t)n; }
                if (ext && s >= 12 + 4 * cc + 4) { p[12 + 4 * cc + 2] = (uint8_t)(len >> 8); p[12 + 4 * cc + 3] = (uint8_t)len; }
                judge(c, p, m);
                EV("bounds enumerated");
            }
        }
    }
}

// ---------------------------------------------------------------- P26
namespace {
void read_all(vf::Ctx& c, const Bytes& p, const Map& m) {
    rtp::ParseStat st;
    vf::Exact x(p, c.rng.below(8));
    auto v = view(x);
    auto res = rtp::Packet::parse(v, *m.map, st);
    c.distinct(vf::Hash().add(p));
    EV("packets");
    if (res.is_err()) { (void)res.unwrap_err().message(); EV("refused"); return; }
    auto& k = res.unwrap();
    uint64_t sum = 0;
    auto inside = [&](const View::Interval& i, const char* what) {
        CHECK(i.offset <= p.size() && i.count <= p.size() - i.offset, std::string("outside.") + what, what << " " << i.offset << "+" << i.count << " of a packet of " << p.size() << " bytes: " << vf::hex(p));
        CHECK(i.offset >= 12, std::string("outside.") + what, what << " starts in the fixed header");
        for (size_t j = 0; j < i.count; ++j) { sum += x.data()[i.offset + j]; }
        auto maybe_sub = v.subview(i.offset, i.count);
        CHECK(maybe_sub.is_some(), std::string("outside.") + what, "no subview");
        auto sub = maybe_sub.unwrap();
        for (size_t j = 0; j < sub.size(); ++j) { sum += sub.assured_read_u8(j); }
        EVN("bytes read", i.count);
    };
    inside(k.payload, "payload");
    if (k.header.maybe_extension.is_some()) { inside(k.header.maybe_extension.unwrap().data, "extension"); EV("extensions read"); }
    CHECK(k.header.csrcs.size() <= 15 && 12 + 4 * k.header.csrcs.size() <= p.size(), "csrcs", k.header.csrcs.size() << " sources");
    for (auto& s : k.header.csrcs) { sum += s.value(); }
    CHECK(k.header.payload_type.value() < 128, "payload.type", "payload type " << (unsigned)k.header.payload_type.value());
    volatile uint64_t sink = sum; (void)sink;
    EV("parsed");
}
}
GROUP("P26", "mutated", 30000, 3000000) {
    Map m(c.rng);
    Bytes p = random_packet(c.rng, m.clocks);
    unsigned n = (unsigned)c.rng.below(5);
    while (n--) { mutate(c.rng, p); }
    read_all(c, p, m);
    c.sample(vf::hex(p));
}
GROUP("P26", "noise", 20000, 2000000) {
    Map m(c.rng);
    Bytes p = c.rng.bytes(c.rng.chance(1, 20) ? c.rng.below(2000) : c.rng.below(100));
    if (c.rng.chance(3, 4) && !p.empty()) { p[0] = (uint8_t)((p[0] & 0x3f) | 0x80); }
    if (c.rng.coin() && p.size() > 20) { p[2 + 12 + 4 * std::min<size_t>(p[0] & 15, (p.size() - 20) / 4)] = 0; }
    read_all(c, p, m);
}
GROUP("P26", "prefixes", 1500, 60000) {
    Map m(c.rng);
    Bytes p = random_packet(c.rng, m.clocks);
    if (p.size() > 200) { p.resize(200); }
    for (size_t n = 0; n <= p.size(); ++n) { read_all(c, Bytes(p.begin(), p.begin() + n), m); EV("prefixes"); }
}

// Extensions of any length that can be announced, in packets of about that size.
GROUP("P26", "long", 60, 3000) {
    Map m(c.rng);
    m.map = payload_map({{96, 90000}});
    m.clocks = {{96, 90000}};
    static const unsigned K[] = {0x3fef, 0x3ffe, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xc000, 0xfffe, 0xffff, 1000};
    unsigned words = c.idx < 20 ? K[c.idx % 10] : (unsigned)c.rng.below(65536), cc = (unsigned)c.rng.below(16);
    size_t need = 16 + 4 * cc + 4 * (size_t)words;
    for (size_t n : {need, need - 1, need + 1 + c.rng.below(300), need - c.rng.below(need), (size_t)(need & 0xffff)}) {
        Bytes p = c.rng.bytes(n);
        if (n > 0) { p[0] = (uint8_t)(0x80 | cc | 0x10 | (c.rng.coin() ? 0x20 : 0)); }
        if (n > 1) { p[1] = 96; }
        size_t o = 12 + 4 * cc;
        if (n >= o + 4) { p[o + 2] = (uint8_t)(words >> 8); p[o + 3] = (uint8_t)words; }
        read_all(c, p, m);
    }
    EV("long extensions");
}

// ---------------------------------------------------------------- P27
GROUP("P27", "sequence numbers", 64, 64) {
    for (unsigned v = (unsigned)c.idx * 1024; v < (unsigned)(c.idx + 1) * 1024; ++v) {
        auto s = rtp::SequenceNumber::from_uint16((uint16_t)v);
        auto copy = s;
        CHECK(s.value() == v && copy.value() == v, "sequence", "sequence number " << v << " is " << s.value());
        EV("sequence numbers");
        c.distinct(vf::Hash().add(1).add(v));
    }
}
GROUP("P27", "32 bit values", 2000, 200000) {
    for (unsigned k = 0; k < 20; ++k) {
        uint32_t a = (uint32_t)c.rng.skewed64(), b = c.rng.chance(1, 3) ? a : c.rng.coin() ? a ^ (1u << c.rng.below(32)) : c.rng.u32();
        auto sa = rtp::SSRC::from_uint32(a), sb = rtp::SSRC::from_uint32(b);
        CHECK(sa.value() == a && sb.value() == b, "ssrc", "SSRC " << a << " is " << sa.value());
        CHECK((sa == sb) == (a == b) && (sb == sa) == (a == b) && (sa != sb) == (a != b), "ssrc.equal", "SSRC " << a << " and " << b << " are " << (sa == sb ? "" : "not ") << "equal");
        unsigned rate = (unsigned)c.rng.skewed64();
        rtp::ClockRate cr(rate);
        CHECK(cr.count() == rate, "clock", "clock rate " << rate << " is " << cr.count());
        auto t = rtp::Timestamp::from_uint32(a, cr);
        auto t2 = t;
        CHECK(t.value() == a && t2.value() == a, "timestamp", "timestamp " << a << " is " << t.value());
        EV("32 bit values");
        c.distinct(vf::Hash().add(2).add(a).add(b).add(rate));
    }
    // All single bits.
    uint32_t bit = 1u << (c.idx % 32);
    CHECK(rtp::SSRC::from_uint32(bit).value() == bit && rtp::ClockRate(bit).count() == bit && rtp::Timestamp::from_uint32(bit, rtp::ClockRate(~bit)).value() == bit, "bit", "bit " << bit);
}
GROUP("P27", "payload types", 256, 256) {
    auto m = rtp::PayloadType::from_uint8((uint8_t)c.idx);
    CHECK(m.is_some() == (c.idx < 128), "payload.type", "payload type " << c.idx << (m.is_some() ? " exists" : " does not exist"));
    EV("payload types");
    c.distinct(vf::Hash().add(3).add(c.idx));
    if (m.is_none()) { return; }
    auto p = m.unwrap();
    CHECK(p.value() == c.idx, "payload.type.value", "payload type " << c.idx << " is " << (unsigned)p.value());
    for (unsigned j = 0; j < 128; ++j) {
        auto q = rtp::PayloadType::from_uint8((uint8_t)j).unwrap();
        CHECK((p == q) == (j == c.idx), "payload.type.equal", "payload types " << c.idx << " and " << j);
        if (j == c.idx) { CHECK(std::hash<rtp::PayloadType>()(p) == std::hash<rtp::PayloadType>()(q), "payload.type.hash", "hashes of equal payload types differ"); }
    }
    rtp::MarkerBit yes(true), no(false);
    CHECK((bool)yes && !(bool)no, "marker", "marker bits");
    rtp::MarkerBit copy(yes);
    copy = no;
    CHECK(!(bool)copy && (bool)yes, "marker", "marker bit assignment");
}
GROUP("P27", "maps", 3000, 200000) {
    Map m(c.rng);
    rtp::PayloadMap copy(*m.map);
    for (unsigned i = 0; i < 128; ++i) {
        auto pt = rtp::PayloadType::from_uint8((uint8_t)i).unwrap();
        auto r = m.map->rtp_clock_rate(pt);
        auto it = m.clocks.find(i);
        CHECK(r.is_some() == (it != m.clocks.end()), "map.presence", "payload type " << i << " is " << (r.is_some() ? "" : "not ") << "found in a map of " << m.clocks.size());
        if (r.is_some()) { CHECK(r.unwrap().count() == it->second, "map.rate", "clock rate of " << i << " is " << r.unwrap().count() << " instead of " << it->second); EV("rates found"); } else { EV("types not registered"); }
        auto r2 = copy.rtp_clock_rate(pt);
        CHECK(r2.is_some() == r.is_some() && (r.is_none() || r2.unwrap().count() == r.unwrap().count()), "map.copy", "copy of the map differs at " << i);
    }
    vf::Hash h;
    for (auto& [k, v] : m.clocks) { h.add(k).add(v); }
    c.distinct(h);
    c.sample("map of " + std::to_string(m.clocks.size()) + " payload types");
}

// ---------------------------------------------------------------- P12
namespace {
Stat stat_of(const rtp::ParseStat& st) {
    return Stat{{"success", st.success.count()}, {"error", st.error.count()}, {"invalid_size", st.invalid_size.count()}, {"invalid_version", st.invalid_version.count()}, {"invalid_csrc", st.invalid_csrc.count()},
                    {"invalid_extension", st.invalid_extension.count()}, {"invalid_payload_type", st.invalid_payload_type.count()}, {"unknown_rtp_clock", st.unknown_rtp_clock.count()}, {"invalid_padding", st.invalid_padding.count()}};
}
struct ParseStatOf {
    bool ok;
    ParseStatOf(const Bytes& p, const rtp::PayloadMap& map) { rtp::ParseStat st; ok = rtp::Packet::parse(view(p), map, st).is_ok(); }
};
}
GROUP("P12", "rtp history", 1500, 100000) {
    Map m(c.rng);
    rtp::ParseStat st;
    auto all = [&] { return stat_of(st); };
    unsigned n = 20 + (unsigned)c.rng.below(60);
    for (unsigned i = 0; i < n; ++i) {
        Bytes p = random_packet(c.rng, m.clocks);
        if (c.rng.coin()) { mutate(c.rng, p); }
        Want w = want(p, m.clocks);
        auto before = all();
        vf::Exact x(p);
        bool ok = rtp::Packet::parse(view(x), *m.map, st).is_ok();
        auto after = all();
        uint64_t reasons = 0;
        std::string which;
        for (size_t k = 0; k < before.size(); ++k) {
            uint64_t d = after[k].second - before[k].second;
            if (k == 0) { CHECK(d == (ok ? 1u : 0u), "rtp.success", "success grows by " << d << " for an " << (ok ? "accepted" : "rejected") << " packet " << vf::hex(p)); }
            else if (k == 1) { CHECK(d == (ok ? 0u : 1u), "rtp.error", "error grows by " << d << " for an " << (ok ? "accepted" : "rejected") << " packet " << vf::hex(p)); }
            else { reasons += d; if (d) { which = after[k].first; } }
        }
        CHECK(reasons == (ok ? 0u : 1u), "rtp.reasons", reasons << " reasons are counted for an " << (ok ? "accepted" : "rejected") << " packet " << vf::hex(p));
        if (!ok && !w.ok) { CHECK(which == w.reason, "rtp.reason", which << " is counted instead of " << w.reason << " for " << vf::hex(p)); }
        if (ok) { EV("rtp accepted"); } else { vf::ev("rtp counted: " + which); }
        c.distinct(vf::Hash().add(p));
    }
    CHECK(st.success.count() + st.error.count() == n, "rtp.total", n << " packets, success " << st.success.count() << ", error " << st.error.count());
}

GROUP("P12", "rtp long", 16, 64) {
    Map m(c.rng);
    rtp::ParseStat st;
    const unsigned kinds = 1 + (unsigned)c.idx % 3;
    std::vector<Bytes> some;
    std::vector<Want> wants;
    const bool first_good = c.idx % 8 < 3 && !m.clocks.empty(); // nothing is accepted without payload types
    while (some.size() < kinds) {
        Bytes p = random_packet(c.rng, m.clocks);
        if (p.size() > 200) { continue; }
        bool good = first_good && some.empty();
        if (!good) { mutate(c.rng, p); }
        Want w = want(p, m.clocks);
        if (w.ok != good) { continue; }
        ParseStatOf one(p, *m.map);
        if (one.ok != good) { continue; } // not specified
        some.push_back(p);
        wants.push_back(w);
    }
    std::map<std::string, uint64_t> sum;
    const uint64_t n = c.thorough ? (c.idx == 0 ? 20000000 : 300000) : 66000 * kinds + c.rng.below(1000);
    for (uint64_t i = 0; i < n; ++i) {
        size_t k = (size_t)(i % kinds);
        bool good = rtp::Packet::parse(view(some[k]), *m.map, st).is_ok();
        CHECK(good == wants[k].ok, "rtp.long.accept", vf::hex(some[k]));
        ++sum[good ? "success" : "error"];
        if (!good) { ++sum[wants[k].reason]; }
        if (i < 8 || (i & 0x1fff) == 0 || i + 1 == n) {
            for (auto& [name, v] : stat_of(st)) { CHECK(v == sum[name], "rtp.long", name << " is " << v << " and not " << sum[name] << " after " << i + 1 << " packets"); }
        }
    }
    EVN("packets in long histories", n);
    vf::Hash h;
    for (auto& p : some) { h.add(p); }
    c.distinct(h);
}
