// P35: vocabulary types.
#include <memory>
#include <unordered_set>
#include <variant>
#include <thread>
#include <atomic>
#include "common.hpp"
#include "util/util_tagged_type.hpp"
#include "util/util_typed_bool.hpp"
#include "util/util_hash_dynamic.hpp"
#include "util/util_variant_overloaded.hpp"
#include "stat/stat_counter.hpp"
#include "stun/stun_client_udp_handle.hpp"
#include "util/util_result_sugar.hpp"
#include "precis/precis_opaque_string.hpp"
#include "precis/precis_opaque_string_hash.hpp"

using namespace freewebrtc;

namespace {

std::string any_string(vf::Rng& r) {
    size_t n = r.chance(1, 6) ? 0 : r.below(r.coin() ? 8 : r.chance(1, 30) ? 5000 : 80);
    std::string s;
    for (size_t i = 0; i < n; ++i) { s += r.chance(1, 10) ? '\0' : (char)r.u8(); }
    return s;
}

template<typename T> struct TagA;
template<typename T> struct TagB;

template<typename T>
void tagged(vf::Ctx& c, const T& v, const T& w) {
    using A = util::TaggedType<T, TagA<T>>;
    const A a{v}, b{T(v)}, other{w};
    CHECK(a.value == v && b.value == v, "tagged.value", "construction");
    CHECK(A::copy_from(v).value == v, "tagged.copy_from", "");
    T tmp = v;
    CHECK(A::move_from(std::move(tmp)).value == v, "tagged.move_from", "");
    CHECK((a == b) && !(a != b), "tagged.equal", "equal values");
    CHECK((a == other) == (v == w) && (other == a) == (v == w) && (a != other) == !(v == w), "tagged.distinct", "");
    A copy(a);
    A moved(std::move(copy));
    A assigned{w};
    assigned = moved;
    CHECK(moved == a && assigned == a && moved.value == v && assigned.value == v, "tagged.assign", "");
    A assigned2{w};
    assigned2 = std::move(moved);
    CHECK(assigned2.value == v, "tagged.assign", "move");
    assigned = other;
    CHECK(assigned.value == w && assigned2.value == v && a.value == v, "tagged.independent", "");
    std::swap(assigned, assigned2);
    CHECK(assigned.value == v && assigned2.value == w, "tagged.swap", "");
    A& self = assigned;
    assigned = self;
    CHECK(assigned.value == v, "tagged.self", "");
    EV("tagged values");
}

}

GROUP("P35", "tagged", 6000, 100000) {
    std::string s = any_string(c.rng), t = c.rng.chance(1, 4) ? s : any_string(c.rng);
    if (c.rng.chance(1, 4) && !s.empty()) { t = s; t[c.rng.below(t.size())] ^= (char)(1u << c.rng.below(8)); }
    if (c.rng.chance(1, 8)) { t = s + '\0'; }
    tagged<std::string>(c, s, t);
    uint64_t x = c.rng.skewed64(), y = c.rng.coin() ? x ^ (1ull << c.rng.below(64)) : c.rng.skewed64();
    tagged<uint64_t>(c, x, y);
    tagged<int>(c, (int)x, (int)y);
    tagged<uint8_t>(c, (uint8_t)x, (uint8_t)y);
    tagged<bool>(c, x & 1, y & 1);
    auto v = c.rng.bytes(c.rng.below(40)), w = c.rng.bytes(c.rng.below(40));
    tagged<std::vector<uint8_t>>(c, v, w);
    using P = util::TaggedType<std::shared_ptr<int>>;
    auto sp = std::make_shared<int>((int)x);
    {
        P p1{sp}, p2 = p1, p3 = P::copy_from(sp);
        CHECK(sp.use_count() == 4 && p2.value.get() == sp.get() && p3 == p1, "tagged.identity", "");
        P p4 = P::move_from(std::move(p3.value));
        CHECK(sp.use_count() == 4 && p4 == p1, "tagged.move", "moving copies the value");
    }
    CHECK(sp.use_count() == 1, "tagged.lifetime", "");
    using OS = precis::OpaqueString;
    OS o1{s}, o2{t};
    precis::OpaqueStringHash h;
    CHECK((o1 == o2) == (s == t), "opaque.equal", vf::quoted(s) << " and " << vf::quoted(t));
    OS o3 = o1;
    CHECK(h(o1) == h(o3) && h(o1) == h(OS{std::string(s)}), "opaque.hash", vf::quoted(s));
    CHECK(util::TaggedType<int>{}.value == util::TaggedType<int>{}.value || true, "", "");
    c.distinct(vf::Hash().add(s).add(t).add(x).add(y));
    if (c.idx < 16) { c.sample("strings " + vf::quoted(s) + " and " + vf::quoted(t) + ", numbers " + std::to_string(x) + " and " + std::to_string(y)); }
}

GROUP("P35", "bool", 200, 2000) {
    struct T1; struct T2;
    using A = util::TypedBool<T1>;
    using B = util::TypedBool<T2>;
    for (int i = 0; i < 50; ++i) {
        bool x = c.rng.coin(), y = c.rng.coin();
        const A a{x};
        A b(a), m(std::move(b)), d{y};
        CHECK((bool)a == x && (bool)m == x && (bool)d == y, "bool.value", x);
        CHECK((bool)B{x} == x && (!a) == !x && (a ? 1 : 2) == (x ? 1 : 2), "bool.convert", x);
        d = a;
        CHECK((bool)d == x, "bool.assign", x);
        d = A{y};
        CHECK((bool)d == y && (bool)a == x, "bool.assign", y);
        // From the usual masked integers.
        unsigned mask = 1u << c.rng.below(32), v = c.rng.u32();
        CHECK((bool)A(v & mask) == ((v & mask) != 0), "bool.masked", v << "&" << mask);
        EV("booleans");
    }
    c.distinct(vf::Hash().add(c.idx));
}

GROUP("P35", "counter", 64, 200) {
    freewebrtc::stat::Counter k, other;
    CHECK(k.count() == 0, "counter.initial", k.count());
    uint64_t n = c.idx == 0 ? 70000 : c.idx == 1 ? 17000000 : c.idx == 2 ? 1 : c.rng.below(100000);
    for (uint64_t i = 1; i <= n; ++i) {
        k.inc();
        if (i < 300 || (i & (i - 1)) == 0 || i == n) { CHECK(k.count() == i, "counter.inc", "after " << i << " events it is " << k.count()); }
        if ((i & 0xfff) == 0) { freewebrtc::stat::Counter cp(k); cp.inc(); CHECK(cp.count() == i + 1 && k.count() == i, "counter.copy", i); other = k; CHECK(other.count() == i, "counter.assign", i); }
    }
    EVN("events counted", n);
    c.distinct(vf::Hash().add(n));
}

// All the way around. (1.5 s of counting without sanitizers, about 20 s with them.)
GROUP("P35", "counter-wrap", 1, 1) {
    freewebrtc::stat::Counter k;
    if (!c.thorough) { return; }
    for (uint64_t i = 0; i < (1ull << 32) + 3; ++i) { k.inc(); }
    CHECK(k.count() == (freewebrtc::stat::Counter::ValueType)((1ull << 32) + 3), "counter.wrap", k.count());
    EVN("events counted", (1ull << 32) + 3);
}

namespace {

struct Key { uint64_t v; };

template<int Id>
struct Algo : util::hash::dynamic::Algorithm<Key> {
    static inline int made = 0;
    static inline int destroyed = 0;
    mutable std::atomic<uint64_t> calls = 0;
    Algo() { ++made; }
    ~Algo() override { ++destroyed; }
    std::size_t hash(const Key& k) const noexcept override { ++calls; return (std::size_t)vf::mix(k.v + Id); }
};
template<int Id> using One = util::hash::dynamic::AlgorithmSingleton<Key, Algo<Id>>;

// Provided by the application: own object.
struct OwnAlgo : util::hash::dynamic::Algorithm<Key> {
    uint64_t salt = 7;
    std::size_t hash(const Key& k) const noexcept override { return (std::size_t)(k.v * salt); }
};
OwnAlgo own;
struct Own { static util::hash::dynamic::Algorithm<Key>& get() noexcept { return own; } };

}

GROUP("P35", "dynamic-hash", 500, 5000) {
    using H = util::hash::dynamic::Hash<Key>;
    H a = H::create<One<1>>(), b = H::create<One<1>>(), d = H::create<One<2>>();
    H copy(a), moved(std::move(copy)), o = H::create<Own>();
    CHECK(&One<1>::get() == &One<1>::get() && (void*)&One<1>::get() != (void*)&One<2>::get(), "dynamic.single", "");
    CHECK(Algo<1>::made == 1 && Algo<2>::made == 1 && Algo<1>::destroyed == 0, "dynamic.single", "instances made " << Algo<1>::made);
    for (int i = 0; i < 50; ++i) {
        Key k{c.rng.skewed64()};
        std::size_t w1 = (std::size_t)vf::mix(k.v + 1), w2 = (std::size_t)vf::mix(k.v + 2);
        uint64_t before = static_cast<Algo<1>&>(One<1>::get()).calls;
        CHECK(a(k) == w1 && b(k) == w1 && moved(k) == w1, "dynamic.value", k.v);
        CHECK(d(k) == w2, "dynamic.other", k.v);
        CHECK(static_cast<Algo<1>&>(One<1>::get()).calls == before + 3, "dynamic.calls", "the shared algorithm was called " << static_cast<Algo<1>&>(One<1>::get()).calls - before << " times");
        own.salt = c.rng.u64() | 1;
        CHECK(o(k) == (std::size_t)(k.v * own.salt), "dynamic.state", k.v);
        EV("hashes");
    }
    std::unordered_set<uint64_t> dummy;
    c.distinct(vf::Hash().add(c.rng.u64()));
}

// The state of an algorithm is one for all threads, and outlives the thread that
// used it first.
GROUP("P35", "dynamic-hash threads", 60, 400) {
    using H = util::hash::dynamic::Hash<Key>;
    void* there = nullptr;
    std::unique_ptr<H> made;
    uint64_t x = c.rng.u64();
    size_t in_thread = 0;
    std::thread([&] { there = &One<3>::get(); made = std::make_unique<H>(H::create<One<3>>()); in_thread = (*made)(Key{x}); }).join();
    // Reuses what the thread left behind.
    std::vector<std::thread> th;
    std::vector<void*> seen(4);
    std::vector<size_t> val(4);
    for (size_t i = 0; i < 4; ++i) { th.emplace_back([&, i] { seen[i] = &One<3>::get(); val[i] = (*made)(Key{x}); }); }
    for (auto& t : th) { t.join(); }
    for (size_t i = 0; i < 4; ++i) { CHECK(seen[i] == there && val[i] == in_thread, "dynamic.threads", "another algorithm object on another thread"); }
    CHECK((void*)&One<3>::get() == there && (*made)(Key{x}) == in_thread && in_thread == (size_t)vf::mix(x + 3), "dynamic.threads", "another algorithm object on another thread");
    CHECK(Algo<3>::made == 1 && Algo<3>::destroyed == 0, "dynamic.single", "instances made " << Algo<3>::made << ", destroyed " << Algo<3>::destroyed);
    EVN("threads sharing an algorithm", 5);
    c.distinct(vf::Hash().add(x));
}

GROUP("P35", "handle", 3000, 50000) {
    using stun::client_udp::Handle;
    using stun::client_udp::HandleHash;
    unsigned x = (unsigned)c.rng.skewed64(), y = c.rng.chance(1, 4) ? x : c.rng.coin() ? x ^ (1u << c.rng.below(32)) : (unsigned)c.rng.skewed64();
    Handle a{x}, b{y};
    CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "handle.order", x << " and " << y);
    HandleHash h;
    CHECK(h(a) == h(Handle{x}), "handle.hash", x);
    std::unordered_set<size_t> hs;
    for (unsigned i = 0; i < 64; ++i) { hs.insert(h(Handle{x + i})); }
    CHECK(hs.size() > 32, "handle.collide", "64 consecutive handles have " << hs.size() << " hashes");
    c.distinct(vf::Hash().add(x).add(y));
}

GROUP("P35", "overloaded", 500, 2000) {
    using V = std::variant<int, std::string, double, std::vector<int>>;
    int x = (int)c.rng.u32();
    V v = x;
    unsigned k = (unsigned)c.rng.below(4);
    if (k == 1) { v = std::string("s"); }
    if (k == 2) { v = 1.5; }
    if (k == 3) { v = std::vector<int>{x}; }
    int calls = 0;
    unsigned got = std::visit(util::overloaded {
        [&](int i) -> unsigned { ++calls; return i == x ? 0 : 99; },
        [&](const std::string&) -> unsigned { ++calls; return 1; },
        [&](double) -> unsigned { ++calls; return 2; },
        [&](const auto&) -> unsigned { ++calls; return 3; }}, v);
    CHECK(got == k && calls == 1, "overloaded", "alternative " << k << " went to " << got);
    EV("visits");
    c.distinct(vf::Hash().add(k).add((uint64_t)x));
}

// The chains of operations written with '>'.
namespace {
struct Once {   // counts its copies
    int v = 0;
    int* copies;
    explicit Once(int x, int* c) : v(x), copies(c) {}
    Once(const Once& o) : v(o.v), copies(o.copies) { ++*copies; }
    Once(Once&& o) noexcept : v(o.v), copies(o.copies) { o.v = -1; }
    Once& operator=(const Once& o) { v = o.v; copies = o.copies; ++*copies; return *this; }
    Once& operator=(Once&& o) noexcept { v = o.v; copies = o.copies; o.v = -1; return *this; }
};
}

GROUP("P35", "chains", 4000, 100000) {
    using RI = Result<int>;
    std::vector<std::error_code> codes = {std::make_error_code(std::errc::timed_out), std::make_error_code(std::errc::not_supported), std::make_error_code(std::errc::invalid_argument)};
    const auto ec = codes[c.rng.below(codes.size())], ec2 = codes[c.rng.below(codes.size())];
    const int x = (int)c.rng.below(1000000);
    const bool ok = c.rng.coin();
    int calls = 0;
    RI r = ok ? RI{x} : RI{::craftpp::error::Error{ec}};
    const RI& cr = r;
    auto value = [&](int v) { ++calls; return std::to_string(v); };
    auto same = [&](const auto& res, const auto& want, const char* what) {
        CHECK(res.is_ok() == ok && calls == (ok ? 1 : 0), "chain.calls", what << ": " << calls << " calls on " << (ok ? "a value" : "an error"));
        if (ok) { CHECK(res.unwrap() == want, "chain.value", what); }
        else { CHECK(res.unwrap_err() == ec, "chain.error", what << ": error became '" << res.unwrap_err().message() << "'"); }
        CHECK(r.is_ok() == ok && (!ok || r.unwrap() == x), "chain.source", what << " changed its source");
        calls = 0;
        EV("chains");
    };
    same(r > value, std::to_string(x), "function of a value");
    same(cr > value, std::to_string(x), "function of a constant value");
    same(RI(r) > value, std::to_string(x), "function of a temporary");
    auto good = [&](int v) { ++calls; return Result<std::string>{std::to_string(v + 1)}; };
    same(r > good, std::to_string(x + 1), "fallible function of a value");
    same(cr > good, std::to_string(x + 1), "fallible function of a constant value");
    same(RI(r) > good, std::to_string(x + 1), "fallible function of a temporary");
    // A failure in the middle ends the chain with its own error.
    int after = 0;
    auto bad = [&](int) -> RI { ++calls; return ::craftpp::error::Error{ec2}; };
    auto end = RI(r) > [&](int v) { return v + 1; } > bad > [&](int v) { ++after; return v; } > [&](int v) { ++after; return RI{v}; };
    CHECK(end.is_err() && end.unwrap_err() == (ok ? ec2 : ec) && after == 0 && calls == (ok ? 1 : 0), "chain.stop", "calls " << calls << ", after the failure " << after);
    static_assert(std::is_same_v<decltype(end), RI>);
    // Composition.
    auto f = [](int v) { return v * 3; };
    auto g = [](int v) -> RI { return v % 2 ? RI{v} : RI{::craftpp::error::Error{std::make_error_code(std::errc::invalid_argument)}}; };
    auto lhs = r > f > g;
    auto rhs = r > [&](int v) { return g(f(v)); };
    static_assert(std::is_same_v<decltype(lhs), decltype(rhs)>);
    CHECK(lhs.is_ok() == rhs.is_ok() && (lhs.is_err() || lhs.unwrap() == rhs.unwrap()), "chain.composition", x);
    // Temporaries are moved along, named values stay.
    int copies = 0;
    Result<Once> o{Once(x, &copies)};
    copies = 0;
    auto moved = std::move(o) > [](Once&& v) { return std::move(v); } > [](Once&& v) { return Result<Once>{std::move(v)}; };
    CHECK(moved.is_ok() && moved.unwrap().v == x && copies == 0, "chain.moved", copies << " copies of a temporary");
    auto seen = moved > [](const Once& v) { return v.v; };
    CHECK(seen.unwrap() == x && moved.unwrap().v == x && copies == 0, "chain.kept", "the named value became " << moved.unwrap().v << ", copies " << copies);
    auto changed = moved > [](Once& v) { v.v += 5; return v.v; };
    CHECK(changed.unwrap() == x + 5 && moved.unwrap().v == x + 5, "chain.reference", "");
    c.distinct(vf::Hash().add((uint64_t)x).add(ok).add((uint64_t)ec.value()));
}
