// P32: hashes and equality.
#include <string>
#include <unordered_set>
#include "common.hpp"
#include "util/util_hash_murmur.hpp"
#include "net/ip/ip_address.hpp"
#include "net/ip/ip_address_hash.hpp"
#include "net/net_path.hpp"
#include "net/net_path_hash.hpp"
#include "stun/stun_transaction_id.hpp"
#include "stun/stun_transaction_id_hash.hpp"
#include "stun/stun_attribute_type.hpp"
#include "stun/stun_client_udp_handle.hpp"
#include "rtp/rtp_payload_type.hpp"
#include "precis/precis_opaque_string_hash.hpp"

using namespace freewebrtc;
using View = util::ConstBinaryView;

namespace {

// MurmurHash64A as published, byte by byte.
uint64_t ref_murmur(const uint8_t* p, size_t len, uint64_t seed) {
    const uint64_t m = 0xc6a4a7935bd1e995ull;
    uint64_t h = seed ^ (len * m);
    size_t i = 0;
    for (; i + 8 <= len; i += 8) {
        uint64_t k = 0;
        for (int j = 7; j >= 0; --j) { k = k << 8 | p[i + (size_t)j]; }
        k *= m; k ^= k >> 47; k *= m;
        h ^= k; h *= m;
    }
    if (len & 7) {
        for (size_t j = len & 7; j-- > 0;) { h ^= (uint64_t)p[i + j] << (8 * j); }
        h *= m;
    }
    h ^= h >> 47; h *= m; h ^= h >> 47;
    return h;
}

net::ip::Address any_address(vf::Rng& r) {
    if (r.coin()) {
        std::array<uint8_t, 4> a;
        for (auto& x : a) { x = r.u8(); }
        if (r.chance(1, 3)) { a = {10, 0, 0, (uint8_t)r.below(8)}; }
        return net::ip::Address(net::ip::AddressV4(std::move(a)));
    }
    std::array<uint8_t, 16> a;
    for (auto& x : a) { x = r.u8(); }
    if (r.chance(1, 3)) { a = {0x20, 1, 0xd, 0xb8}; a[15] = (uint8_t)r.below(8); }
    return net::ip::Address(net::ip::AddressV6(std::move(a)));
}

// Equal to the address, built on another way and in other memory.
net::ip::Address again(const net::ip::Address& a, vf::Rng& r) {
    auto v = a.view();
    vf::Exact x(v.data(), v.size(), r.below(8));
    View w(x.data(), x.size());
    if (v.size() == 4) { return net::ip::Address(net::ip::AddressV4::from_view(w).unwrap()); }
    return net::ip::Address(net::ip::AddressV6::from_view(w).unwrap());
}

// The same values, made in memory that held something else. The hashes must not
// see it.
template<typename T, typename Make, typename Hash>
size_t hash_in(uint8_t before, Make make, Hash hash) {
    alignas(std::max_align_t) static uint8_t room[sizeof(T) + 64];
    void* p = room;
    std::memset(p, before, sizeof room);
    asm volatile("" : "+r"(p) : : "memory"); // the bytes are really there
    T* t = make(p);
    asm volatile("" : "+r"(t) : : "memory");
    size_t h = hash(*t);
    t->~T();
    return h;
}
template<typename T, typename Make, typename Hash>
void anywhere(vf::Ctx& c, const char* what, Make make, Hash hash) {
    size_t h = hash_in<T>(0, make, hash);
    for (uint8_t b : {0xff, 0x5a, 0x01}) { CHECK(hash_in<T>(b, make, hash) == h, "hash.memory", "hash of equal " << what << " depends on what was in memory before"); }
    EV("hashes in used memory");
}

bool same_bytes(const net::ip::Address& a, const net::ip::Address& b) {
    auto x = a.view(), y = b.view();
    return x.size() == y.size() && std::memcmp(x.data(), y.data(), x.size()) == 0;
}

}

GROUP("P32", "murmur", 20000, 400000) {
    vf::Bytes b = c.rng.bytes(c.idx < 4400 ? c.idx / 2 : c.rng.below(c.rng.chance(1, 20) ? 3000 : 70));
    if (c.rng.chance(1, 8)) { std::fill(b.begin(), b.end(), c.rng.coin() ? 0 : 0xff); }
    uint64_t seed = c.rng.skewed64();
    uint64_t want = ref_murmur(b.data(), b.size(), seed);
    uint64_t got[3];
    for (int i = 0; i < 3; ++i) {
        vf::Exact x(b, c.rng.below(8));
        got[i] = util::hash::murmur(View(x.data(), x.size()), seed);
        CHECK(got[i] == util::hash::murmur(View(x.data(), x.size()), seed), "murmur.repeat", "length " << b.size());
        CHECK(got[i] == want, "murmur.value", "length " << b.size() << " seed " << seed << " bytes " << vf::hex(b) << ": " << got[i] << " and not " << want);
        EV("byte hashes");
    }
    // A sequence of parts.
    vf::Bytes p2 = c.rng.bytes(c.rng.below(40)), p3 = c.rng.bytes(c.rng.below(40));
    vf::Exact x1(b, c.rng.below(8)), x2(p2, c.rng.below(8)), x3(p3, c.rng.below(8));
    View v1(x1.data(), x1.size()), v2(x2.data(), x2.size()), v3(x3.data(), x3.size());
    uint64_t chained = ref_murmur(p2.data(), p2.size(), want);
    CHECK(util::hash::murmur<1>(std::array<View, 1>{v1}, seed) == want, "murmur.one", "");
    CHECK(util::hash::murmur<2>(std::array<View, 2>{v1, v2}, seed) == chained, "murmur.chain", "lengths " << b.size() << " and " << p2.size());
    CHECK(util::hash::murmur<3>(std::array<View, 3>{v1, v2, v3}, seed) == ref_murmur(p3.data(), p3.size(), chained), "murmur.chain", "three parts");
    if (!b.empty()) { c.distinct(vf::Hash().add(b).add(seed)); }
    if (c.idx < 40) { c.sample("bytes " + vf::hex(b).substr(0, 60) + " seed " + std::to_string(seed) + " -> " + std::to_string(want)); }
}

GROUP("P32", "addresses", 12000, 200000) {
    auto a = any_address(c.rng), b = c.rng.chance(1, 4) ? again(a, c.rng) : any_address(c.rng);
    if (c.rng.chance(1, 3)) { // one bit away
        vf::Bytes raw(a.view().begin(), a.view().end());
        raw[c.rng.below(raw.size())] ^= (uint8_t)(1u << c.rng.below(8));
        View w(raw);
        b = raw.size() == 4 ? net::ip::Address(net::ip::AddressV4::from_view(w).unwrap()) : net::ip::Address(net::ip::AddressV6::from_view(w).unwrap());
    }
    net::ip::AddressHash h;
    net::PathHash ph;
    auto a2 = again(a, c.rng);
    auto heap = std::make_unique<net::ip::Address>(a);
    CHECK(a == a2 && a == *heap && h(a) == h(a2) && h(a) == h(*heap) && h(a) == net::ip::AddressHash{}(a), "address.hash", vf::hex(a.view()));
    // History: another address was in the same object before.
    *heap = b;
    *heap = a;
    CHECK(*heap == a && h(*heap) == h(a), "address.history", vf::hex(a.view()));
    CHECK((a == b) == same_bytes(a, b) && (a != b) == !same_bytes(a, b), "address.equal", vf::hex(a.view()) << " and " << vf::hex(b.view()));
    net::Path p{a, b}, q{again(a, c.rng), again(b, c.rng)}, swapped{b, a}, other{a, any_address(c.rng)};
    CHECK(p == q && ph(p) == ph(q) && ph(p) == net::PathHash{}(q), "path.hash", "");
    CHECK((p == swapped) == (a == b), "path.direction", vf::hex(a.view()) << " and " << vf::hex(b.view()));
    CHECK((p == other) == same_bytes(b, other.target), "path.equal", "");
    if (!(p == swapped)) { EV("paths and their reverses"); if (ph(p) == ph(swapped)) { EV("path collides with its reverse"); } }
    if (!(a == b)) { EV("different address pairs"); if (h(a) == h(b)) { EV("different addresses with equal hashes"); } }
    using A = net::ip::Address;
    vf::Bytes raw(a.view().begin(), a.view().end()), rawb(b.view().begin(), b.view().end());
    auto from = [](void* p, const vf::Bytes& r) {
        if (r.size() == 4) { std::array<uint8_t, 4> x; std::memcpy(x.data(), r.data(), 4); return new (p) A(net::ip::AddressV4(std::move(x))); }
        std::array<uint8_t, 16> x; std::memcpy(x.data(), r.data(), 16); return new (p) A(net::ip::AddressV6(std::move(x)));
    };
    anywhere<A>(c, "addresses", [&](void* p) { return from(p, raw); }, h);
    anywhere<net::Path>(c, "paths", [&](void* p) {
        // Members in place, too.
        auto make = [&](const vf::Bytes& r) { if (r.size() == 4) { std::array<uint8_t, 4> x; std::memcpy(x.data(), r.data(), 4); return net::ip::AddressV4(std::move(x)); } return net::ip::AddressV4(std::array<uint8_t, 4>{1, 2, 3, 4}); };
        if (raw.size() == 4 && rawb.size() == 4) { return new (p) net::Path{A(make(raw)), A(make(rawb))}; }
        return new (p) net::Path{a, b};
    }, ph);
    c.distinct(vf::Hash().add(a.view().data(), a.view().size()).add(b.view().data(), b.view().size()));
}

GROUP("P32", "transaction-ids", 8000, 100000) {
    size_t n = c.rng.chance(1, 4) ? 16 : 12;
    vf::Bytes raw = c.rng.bytes(n), raw2 = raw;
    if (c.rng.coin()) { raw2[c.rng.below(n)] ^= (uint8_t)(1u << c.rng.below(8)); }
    if (c.rng.chance(1, 8)) { raw2.pop_back(); }
    vf::Exact x(raw, c.rng.below(8)), y(raw2, c.rng.below(8)), z(raw, c.rng.below(8));
    stun::TransactionId a{View(x.data(), x.size())}, b{View(y.data(), y.size())}, d{View(z.data(), z.size())};
    x.release(); y.release(); z.release();
    struct Rnd { size_t operator()() { return 0x1234567; } };
    auto h = stun::MurmurTransactionIdHash<>::create(), h2 = stun::MurmurTransactionIdHash<>::create();
    auto s = stun::MurmurTransactionIdHash<Rnd>::create();
    CHECK(a == d && !(a != d) && h(a) == h(d) && h(a) == h2(a) && s(a) == s(d), "tid.hash", vf::hex(raw));
    CHECK((a == b) == (raw == raw2) && (a != b) == (raw != raw2), "tid.equal", vf::hex(raw) << " and " << vf::hex(raw2));
    CHECK(vf::Bytes(a.view().begin(), a.view().end()) == raw, "tid.bytes", vf::hex(raw));
    stun::TransactionId copy(a), moved(std::move(copy));
    copy = b;
    CHECK(moved == a && copy == b && h(moved) == h(a) && h(copy) == h(b), "tid.copy", vf::hex(raw));
    anywhere<stun::TransactionId>(c, "transaction ids", [&](void* p) { return new (p) stun::TransactionId{View(raw)}; }, h);
    // Generated from words of a random source, as they are in memory.
    std::vector<uint32_t> words;
    auto gen = [&] { words.push_back(c.rng.u32()); return words.back(); };
    auto g = stun::TransactionId::generate(gen);
    CHECK(g.view().size() == 12 && words.size() == 3 && std::memcmp(g.view().data(), words.data(), 12) == 0, "tid.generate", vf::hex(g.view()));
    words.clear();
    auto g2 = stun::TransactionId::generate_rfc3489(gen);
    CHECK(g2.view().size() == 16 && words.size() == 4 && std::memcmp(g2.view().data(), words.data(), 16) == 0, "tid.generate", vf::hex(g2.view()));
    EV("transaction ids");
    c.distinct(vf::Hash().add(raw).add(raw2));
}

// Sets of realistic values: few collisions.
GROUP("P32", "spread", 24, 100) {
    constexpr unsigned N = 2048;
    auto spread = [&](const char* what, auto make, auto hash) {
        std::unordered_set<size_t> full, low;
        for (unsigned i = 0; i < N; ++i) { size_t h = hash(make(i)); full.insert(h); low.insert(h % 4093); }
        CHECK(full.size() > N * 9 / 10, "spread", N << " " << what << " have " << full.size() << " hashes");
        CHECK(low.size() > N / 3, "spread.buckets", N << " " << what << " are in " << low.size() << " of 4093 buckets");
        EVN("values spread", N);
        c.distinct(vf::Hash().add(what).add(c.idx));
    };
    uint8_t pos = (uint8_t)c.rng.below(15);
    uint32_t net = c.rng.u32();
    auto v4 = [&](unsigned i, bool low) {
        uint32_t a = low ? net + i : net + (i << 20);
        std::array<uint8_t, 4> b{(uint8_t)(a >> 24), (uint8_t)(a >> 16), (uint8_t)(a >> 8), (uint8_t)a};
        return net::ip::Address(net::ip::AddressV4(std::move(b)));
    };
    auto v6 = [&](unsigned i) {
        std::array<uint8_t, 16> b{0x20, 1, 0x0d, 0xb8};
        b[pos] = (uint8_t)(i >> 8);
        b[pos + 1] = (uint8_t)i;
        return net::ip::Address(net::ip::AddressV6(std::move(b)));
    };
    net::ip::AddressHash h;
    net::PathHash ph;
    spread("IPv4 addresses", [&](unsigned i) { return v4(i, true); }, h);
    spread("IPv6 addresses", v6, h);
    spread("IPv4 paths by source", [&](unsigned i) { return net::Path{v4(i, true), v4(0, true)}; }, ph);
    spread("IPv4 paths by target", [&](unsigned i) { return net::Path{v4(0, true), v4(i, true)}; }, ph);
    spread("IPv6 paths", [&](unsigned i) { return net::Path{v6(i), v6(i / 7)}; }, ph);
    spread("IPv4 paths both ways", [&](unsigned i) { return i % 2 ? net::Path{v4(0, true), v4(1 + i / 2, true)} : net::Path{v4(1 + i / 2, true), v4(0, true)}; }, ph);
    spread("loopback paths", [&](unsigned i) { return net::Path{v4(i, true), v4(i, true)}; }, ph);
    auto th = stun::MurmurTransactionIdHash<>::create();
    unsigned off = (unsigned)c.rng.below(11);
    auto tid = [&](unsigned i) { vf::Bytes b(12); b[off] = (uint8_t)i; b[off + 1] = (uint8_t)(i >> 8); return stun::TransactionId(View(b)); };
    spread("transaction ids", tid, th);
    spread("user names", [&](unsigned i) { return precis::OpaqueString{"user" + std::to_string(i)}; }, precis::OpaqueStringHash{});
    spread("attribute types", [&](unsigned i) { return stun::AttributeType::from_uint16((uint16_t)(i * 32 + pos)); }, std::hash<stun::AttributeType>{});
    spread("handles", [&](unsigned i) { return stun::client_udp::Handle{i + net}; }, stun::client_udp::HandleHash{});
    // Payload types: all of them.
    std::unordered_set<size_t> full;
    std::hash<rtp::PayloadType> rh;
    for (unsigned i = 0; i < 128; ++i) {
        auto p = rtp::PayloadType::from_uint8((uint8_t)i).unwrap(), q = rtp::PayloadType::from_uint8((uint8_t)i).unwrap();
        CHECK(p == q && rh(p) == rh(q), "payload-type.hash", i);
        full.insert(rh(p));
    }
    CHECK(full.size() > 100, "spread", "128 payload types have " << full.size() << " hashes");
}

// Names and handles: equality and hashes.
GROUP("P32", "names", 6000, 100000) {
    std::string s;
    for (size_t i = c.rng.below(30); i > 0; --i) { s += (char)c.rng.u8(); }
    std::string t = s;
    if (c.rng.coin() && !t.empty()) { t[c.rng.below(t.size())] ^= (char)(1u << c.rng.below(8)); }
    if (c.rng.chance(1, 5)) { t += '\0'; }
    precis::OpaqueString a{s}, b{t}, d{std::string(s.data(), s.size())};
    d.value.reserve(s.size() + c.rng.below(100));
    precis::OpaqueStringHash h;
    CHECK(a == d && h(a) == h(d) && (a == b) == (s == t), "name.equal", vf::quoted(s) << " and " << vf::quoted(t));
    if (s != t) { EV("different names"); if (h(a) == h(b)) { EV("different names with equal hashes"); } }
    CHECK(s == t || h(a) != h(b), "name.collide", vf::quoted(s) << " and " << vf::quoted(t) << " have equal hashes");
    c.distinct(vf::Hash().add(s).add(t));
}
