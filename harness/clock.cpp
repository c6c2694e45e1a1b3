// P01, P02, P03: timepoints and the clock adapter.
#include <thread>
#include "common.hpp"
#include "clock/clock_timepoint.hpp"
#include "clock/clock_std.hpp"

using freewebrtc::clock::Timepoint;
namespace ck = freewebrtc::clock;
using namespace std::chrono;
using i128 = __int128;
using us64 = duration<int64_t, std::micro>;

namespace {

std::string str(i128 v) {
    if (v == 0) { return "0"; }
    bool neg = v < 0;
    std::string s;
    unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    while (u) { s += (char)('0' + (int)(u % 10)); u /= 10; }
    if (neg) { s += '-'; }
    std::reverse(s.begin(), s.end());
    return s;
}

// Timepoint with the given counter, made through the public API only.
Timepoint tp(uint64_t v) {
    return Timepoint::epoch().advance(duration<uint64_t, std::micro>(v));
}

// Counter of the timepoint, read through the public API only: distances to two
// reference points, which differ when the point is not where it seems to be.
uint64_t counter_of(const Timepoint& t) {
    return (uint64_t)(t - Timepoint::epoch()).count();
}

int64_t signed_any(vf::Rng& r) { return (int64_t)r.skewed64(); }

// Duration in a unit that fits: count such that count*num fits int64 microseconds.
template<typename D>
D any_duration(vf::Rng& r) {
    constexpr int64_t k = D::period::num * (std::micro::den / D::period::den);
    int64_t lim = std::numeric_limits<int64_t>::max() / k;
    int64_t v = signed_any(r);
    if (v > lim || v < -lim) { v %= lim; }
    if (r.chance(1, 40)) { v = r.coin() ? lim : -lim; }
    return D((typename D::rep)v);
}

struct Step { uint64_t delta; std::string text; };

// Advances by a duration in a randomly chosen unit; gives the microseconds modulo 2^64.
Timepoint advance_any(vf::Rng& r, const Timepoint& t, uint64_t& delta, std::string& text) {
    auto go = [&](auto d, const char* u) {
        using D = decltype(d);
        constexpr int64_t k = D::period::num * (std::micro::den / D::period::den);
        delta = (uint64_t)d.count() * (uint64_t)k;
        text += std::to_string(d.count()) + u + " ";
        return t.advance(d);
    };
    switch (r.below(20)) {
    case 8: return go(any_duration<days>(r), "d");
    case 9: return go(any_duration<weeks>(r), "w");
    case 10: return go(any_duration<years>(r), "y");
    case 11: return go(any_duration<duration<int64_t, std::ratio<1, 8000>>>(r), "/8000s");
    case 12: return go(any_duration<duration<int64_t, std::ratio<1, 64>>>(r), "/64s");
    case 13: return go(any_duration<duration<int64_t, std::ratio<3, 1000>>>(r), "x3ms");
    case 14: return go(duration<uint32_t, std::milli>((uint32_t)r.skewed64()), "ums32");
    case 15: return go(duration<uint32_t, std::ratio<1>>((uint32_t)r.skewed64()), "us32");
    case 16: return go(duration<int32_t, std::micro>((int32_t)r.skewed64()), "us32");
    case 17: return go(duration<int16_t, std::ratio<3600>>((int16_t)r.skewed64()), "h16");
    case 18: return go(duration<int32_t, std::ratio<60>>((int32_t)r.skewed64()), "min32");
    case 0: return go(any_duration<milliseconds>(r), "ms");
    case 1: return go(any_duration<seconds>(r), "s");
    case 2: return go(any_duration<minutes>(r), "min");
    case 3: return go(any_duration<hours>(r), "h");
    case 4: return go(duration<uint64_t, std::micro>(r.skewed64()), "uus");
    case 5: return go(Timepoint::Duration(signed_any(r)), "us");
    case 6: return go(duration<int32_t, std::milli>((int32_t)signed_any(r)), "ms32");
    default: return go(microseconds(signed_any(r)), "us");
    }
}

}

// Additivity and exactness over the whole range.
GROUP("P01", "advance", 60000, 600000) {
    uint64_t v = c.rng.skewed64();
    Timepoint t = tp(v);
    CHECK(counter_of(t) == v, "advance.value", "epoch advanced by " << v << "us is at " << counter_of(t));
    uint64_t sum = 0;
    std::string text;
    unsigned n = 1 + c.rng.below(6);
    Timepoint cur = t;
    bool wrapped = false, negative = false;
    std::vector<uint64_t> deltas;
    for (unsigned i = 0; i < n; ++i) {
        uint64_t d = 0;
        Timepoint before = cur;
        cur = advance_any(c.rng, cur, d, text);
        // In the interpretation that the caller meant: forward or backward.
        if ((int64_t)d < 0) { negative = true; }
        if ((int64_t)d >= 0 ? v + sum + d < v + sum : v + sum + d > v + sum) { wrapped = true; EV("wrapped"); }
        sum += d;
        deltas.push_back(d);
        CHECK(counter_of(cur) == v + sum, "advance.sum", "at " << v << " advanced by " << text << "is at " << counter_of(cur) << " and not " << v + sum);
        CHECK((cur == before) == (d == 0), "advance.equal", "advance by " << text);
        EV("advances");
    }
    // Equal sums, equal points: at once, in another order, backward.
    Timepoint once = t.advance(microseconds((int64_t)sum));
    CHECK(once == cur && cur == once && cur == tp(v + sum), "advance.sum-equal", "at " << v << ": " << text << "differs from the sum " << (int64_t)sum);
    Timepoint shuffled = t;
    for (size_t i = deltas.size(); i > 0; --i) { shuffled = shuffled.advance(Timepoint::Duration((int64_t)deltas[i - 1])); }
    CHECK(shuffled == cur, "advance.order", "at " << v << ": order of " << text << "matters");
    Timepoint back = cur;
    for (auto d : deltas) { back = back.advance(microseconds((int64_t)(0 - d))); }
    CHECK(back == t, "advance.back", "at " << v << ": " << text << "and back");
    // The receiver is not changed.
    CHECK(t == tp(v), "advance.receiver", "advance changed its receiver");
    if (wrapped || negative || n > 1) { c.distinct(vf::Hash().add(v).add(sum).add(n)); }
    c.sample("at " + std::to_string(v) + "us: " + text + "-> " + std::to_string(v + sum));
}

// Difference and order of points less than half of the range apart.
GROUP("P01", "difference", 30000, 1000000) {
    uint64_t v = c.rng.skewed64();
    int64_t d = signed_any(c.rng);
    switch (c.rng.below(8)) {
    case 0: d = c.rng.range(-3, 3); break;
    case 1: d = std::numeric_limits<int64_t>::max() - (int64_t)c.rng.below(3); break;
    case 2: d = std::numeric_limits<int64_t>::min() + 1 + (int64_t)c.rng.below(3); break;
    case 3: d = c.rng.range(-20000000, 20000000); break;
    case 4: v = 0 - c.rng.below(1000000); d = c.rng.range(-2000000, 2000000); break; // around the wrap
    default: break;
    }
    if (d == std::numeric_limits<int64_t>::min()) { d = 0; }
    Timepoint a = tp(v);
    Timepoint b = c.rng.coin() ? tp(v + (uint64_t)d) : a.advance(microseconds(d));
    auto msg = [&] { return "points " + std::to_string(v) + " and " + std::to_string(v + (uint64_t)d) + " (distance " + std::to_string(d) + ")"; };
    CHECK((b - a).count() == d, "difference.value", msg() << ": difference " << (b - a).count());
    CHECK((a - b).count() == -d, "difference.mirror", msg() << ": mirrored difference " << (a - b).count());
    CHECK(a.advance(b - a) == b, "difference.leads", msg());
    bool after = b.is_after(a), before = b.is_before(a), equal = b == a;
    CHECK((int)after + (int)before + (int)equal == 1, "order.exactly-one", msg() << ": after=" << after << " before=" << before << " equal=" << equal);
    CHECK(after == (d > 0) && before == (d < 0) && equal == (d == 0), "order.sign", msg() << ": after=" << after << " before=" << before << " equal=" << equal);
    CHECK(a.is_before(b) == after && a.is_after(b) == before && (a == b) == equal && (a != b) == !equal, "order.mirror", msg());
    EV("pairs");
    if (after) { EV("after"); }
    if (before) { EV("before"); }
    if (equal) { EV("equal"); }
    // Copies are the same points.
    Timepoint copy(a), moved(std::move(copy)), assigned = Timepoint::epoch();
    assigned = moved;
    CHECK(assigned == a && !assigned.is_after(a) && !assigned.is_before(a) && (assigned - a).count() == 0, "copy", msg());
    if (d != 0) { c.distinct(vf::Hash().add(v).add((uint64_t)d)); }
    if (c.idx % 1000 < 2) { c.sample(msg()); }
}

// Every distance for each small neighbourhood of interesting positions.
GROUP("P01", "boundaries", 64, 64) {
    uint64_t base = c.idx == 0 ? 0 : 1ull << c.idx;
    for (int i = -4; i <= 4; ++i) {
        for (unsigned k = 0; k < 63; ++k) {
            for (int j = -2; j <= 2; ++j) {
                for (int s = -1; s <= 1; s += 2) {
                    int64_t d = s * (int64_t)((1ull << k) + (uint64_t)j);
                    if (d == std::numeric_limits<int64_t>::min()) { continue; }
                    uint64_t v = base + (uint64_t)(int64_t)i;
                    Timepoint a = tp(v), b = a.advance(microseconds(d));
                    CHECK(b == tp(v + (uint64_t)d), "advance.value", v << " advanced by " << d);
                    CHECK((b - a).count() == d && (a - b).count() == -d, "difference.value", v << " and distance " << d << ": " << (b - a).count());
                    CHECK(b.is_after(a) == (d > 0) && b.is_before(a) == (d < 0) && a.is_after(b) == (d < 0) && a.is_before(b) == (d > 0) && (a == b) == (d == 0), "order.sign", v << " and distance " << d);
                    EV("pairs");
                }
            }
        }
    }
    c.distinct(vf::Hash().add(base));
}

namespace {

// Oracle of one consume operation, exact in 128 bits: count ticks of num/den seconds.
template<typename D>
void consume(vf::Ctx& c, const Timepoint& t, uint64_t v, D& d, i128 max_us) {
    using P = typename D::period;
    const D orig = d;
    // ticks -> microseconds, truncated: count * num * 1e6 / den
    i128 num = (i128)(int64_t)d.count() * P::num * 1000000;
    i128 whole = num / P::den;
    if (whole > max_us || whole < -max_us) { d = D{0}; return; }
    Timepoint r = t.advance_from(d);
    uint64_t want = v + (uint64_t)(int64_t)whole;
    CHECK(r == tp(want), "consume.advance", "at " << v << " consumed " << orig.count() << " ticks of " << P::num << "/" << P::den << "s, at " << counter_of(r) << " and not " << want);
    i128 left = num - whole * P::den; // of 1/(den*1e6) s
    // Remainder in ticks: the consumed microseconds converted back to ticks exactly,
    // or truncated when a microsecond is not a whole number of ticks.
    i128 back = whole * P::den / ((i128)P::num * 1000000);
    i128 rest = (i128)(int64_t)orig.count() - back;
    CHECK((i128)(int64_t)d.count() == rest, "consume.remainder", "consumed " << orig.count() << " ticks of " << P::num << "/" << P::den << "s: " << d.count() << " ticks left and not " << str(rest));
    EV("consumed");
    if (left != 0) { EV("remainder carried"); }
    if (orig.count() < 0) { EV("negative"); }
}

// Feeds the remainder back and compares the total with the exact sum. Units are
// those in which a microsecond is a whole number of ticks or the other way round,
// where conservation is exact.
template<typename D>
void chain(vf::Ctx& c, const char* unit) {
    using P = typename D::period;
    uint64_t v = c.rng.skewed64();
    Timepoint t = tp(v);
    D rem{0};
    i128 total = 0;
    unsigned n = 1 + c.rng.below(12);
    std::string text;
    // Sums stay in range of the representation.
    int64_t lim = std::numeric_limits<int64_t>::max() / 64;
    if (P::den < 1000000) { int64_t k = P::num * (1000000 / P::den); lim /= k; }
    for (unsigned i = 0; i < n; ++i) {
        int64_t x = signed_any(c.rng) % lim;
        if (c.rng.coin()) { x = c.rng.range(-3000, 3000); }
        total += x;
        rem += D(x);
        text += std::to_string(x) + " ";
        i128 num = (i128)(int64_t)rem.count() * P::num * 1000000;
        i128 whole = num / P::den;
        const D orig = rem;
        Timepoint r = t.advance_from(rem);
        v += (uint64_t)(int64_t)whole;
        CHECK(r == tp(v), "consume.advance", unit << ": consumed " << orig.count() << " ticks, at " << counter_of(r) << " and not " << v << "; chain " << text);
        i128 left = num - whole * P::den;
        CHECK((i128)(int64_t)rem.count() * P::num * 1000000 == left, "consume.remainder", unit << ": consumed " << orig.count() << " ticks, " << rem.count() << " left");
        CHECK(rem.count() == 0 || (rem.count() > 0) == (orig.count() > 0), "consume.sign", unit << ": consumed " << orig.count() << " ticks, " << rem.count() << " left");
        // shorter than a microsecond
        i128 mag = left < 0 ? -left : left;
        CHECK(mag < P::den, "consume.short", unit << ": " << rem.count() << " ticks left of " << orig.count());
        t = r;
        EV("consumed");
        if (left != 0) { EV("remainder carried"); }
        if (orig.count() < 0) { EV("negative"); }
        if (c.rng.chance(1, 4)) { // nothing more to consume
            D again = rem;
            Timepoint r2 = t.advance_from(again);
            CHECK(r2 == t && again == rem, "consume.idempotent", unit << ": consuming the remainder " << rem.count() << " again");
        }
    }
    if (n > 1) { c.distinct(vf::Hash().add(unit).add(v).add((uint64_t)total)); }
    if (c.idx % 97 == 0) { c.sample(std::string(unit) + ": " + text); }
}

template<int64_t N, int64_t M> using D64 = duration<int64_t, std::ratio<N, M>>;

}

GROUP("P02", "chain", 34000, 400000) {
    switch (c.idx % 17) {
    case 8: return chain<days>(c, "d");
    case 9: return chain<hours>(c, "h");
    case 10: return chain<D64<1, 8000>>(c, "1/8000s");
    case 11: return chain<D64<1, 64>>(c, "1/64s");
    case 12: return chain<D64<3, 1000>>(c, "3ms");
    case 13: return chain<D64<1, 4000000>>(c, "250ns");
    case 14: return chain<duration<int64_t, std::femto>>(c, "fs");
    case 15: return chain<D64<1, 1024000000>>(c, "1/1024us");
    case 0: return chain<nanoseconds>(c, "ns");
    case 1: return chain<duration<int64_t, std::pico>>(c, "ps");
    case 2: return chain<D64<1, 10000000>>(c, "100ns");
    case 3: return chain<microseconds>(c, "us");
    case 4: return chain<milliseconds>(c, "ms");
    case 5: return chain<seconds>(c, "s");
    case 6: return chain<minutes>(c, "min");
    case 7: return chain<D64<1, 1000000 * 3ll>>(c, "us/3");
    default: return chain<D64<1, 50>>(c, "20ms");
    }
}

// The whole domain for a single step, up to the last representable microsecond.
GROUP("P02", "single", 26000, 400000) {
    uint64_t v = c.rng.skewed64();
    Timepoint t = tp(v);
    i128 lim = std::numeric_limits<int64_t>::max();
    auto one = [&](auto d) {
        auto orig = d;
        consume(c, t, v, d, lim);
        c.distinct(vf::Hash().add(c.idx % 8).add(v).add((uint64_t)orig.count()));
    };
    int64_t x = signed_any(c.rng);
    // Clear of the overflow of the conversion itself.
    auto fit = [&](int64_t k) { int64_t l = std::numeric_limits<int64_t>::max() / k; return (x > l || x < -l) ? x % l : x; };
    if (x == std::numeric_limits<int64_t>::min()) { x = 0; }
    switch (c.idx % 13) {
    case 8: return one(minutes(fit(60000000)));
    case 9: return one(days((int)fit(86400000000ll)));
    case 10: return one(duration<uint32_t, std::nano>((uint32_t)x));
    case 11: return one(duration<int64_t, std::femto>(x));
    case 12: return one(duration<int32_t, std::micro>((int32_t)x));
    case 0: return one(nanoseconds(x));
    case 1: return one(microseconds(x));
    case 2: return one(milliseconds(fit(1000)));
    case 3: return one(seconds(fit(1000000)));
    case 4: return one(hours(fit(3600000000ll)));
    case 5: return one(duration<int64_t, std::pico>(x));
    case 6: return one(D64<1, 10000000>(x));
    default: return one(duration<int32_t, std::nano>((int32_t)x));
    }
}

namespace {

// Every integer representation with units of whole ticks, both ways of conversion.
template<typename Rep, typename Period>
void exact_unit(vf::Ctx& c) {
    using D = duration<Rep, Period>;
    constexpr int64_t k = Period::num * (1000000 / Period::den);
    uint64_t v = c.rng.skewed64();
    Timepoint t = tp(v);
    for (unsigned i = 0; i < 4; ++i) {
        Rep n = (Rep)c.rng.skewed64();
        if (c.rng.chance(1, 8)) { n = std::numeric_limits<Rep>::max(); }
        if (c.rng.chance(1, 8)) { n = std::numeric_limits<Rep>::min(); }
        if (c.rng.chance(1, 8)) { n = (Rep)(std::numeric_limits<Rep>::max() / 2 + (int)c.rng.below(3)); }
        i128 us = (i128)n * k;
        if (us > std::numeric_limits<int64_t>::max() || us < -(i128)std::numeric_limits<int64_t>::max()) { n = (Rep)(n % (Rep)(std::numeric_limits<int64_t>::max() / k)); us = (i128)n * k; }
        D d(n);
        CHECK(t.advance(d) == tp(v + (uint64_t)(int64_t)us), "advance.exact", "at " << v << " advanced by " << str(n) << " of " << Period::num << "/" << Period::den << "s, " << sizeof(Rep) << " byte representation: at " << counter_of(t.advance(d)));
        D rest = d;
        Timepoint r = t.advance_from(rest);
        CHECK(r == tp(v + (uint64_t)(int64_t)us) && rest.count() == 0, "consume.exact", "at " << v << " consumed " << str(n) << " of " << Period::num << "/" << Period::den << "s, " << sizeof(Rep) << " byte representation: at " << counter_of(r) << ", left " << str(rest.count()));
        EV("whole ticks converted");
    }
    c.distinct(vf::Hash().add(v).add((uint64_t)k).add(sizeof(Rep)).add(std::is_signed_v<Rep>));
}

template<typename Rep>
void exact_rep(vf::Ctx& c) {
    switch (c.idx / 8 % 8) {
    case 0: return exact_unit<Rep, std::micro>(c);
    case 1: return exact_unit<Rep, std::milli>(c);
    case 2: return exact_unit<Rep, std::ratio<1>>(c);
    case 3: return exact_unit<Rep, std::ratio<60>>(c);
    case 4: return exact_unit<Rep, std::ratio<3600>>(c);
    case 5: return exact_unit<Rep, std::ratio<86400>>(c);
    case 6: return exact_unit<Rep, std::ratio<1, 50>>(c);
    default: return exact_unit<Rep, std::ratio<1, 8000>>(c);
    }
}

}

GROUP("P02", "representations", 16000, 400000) {
    switch (c.idx % 8) {
    case 0: return exact_rep<int8_t>(c);
    case 1: return exact_rep<uint8_t>(c);
    case 2: return exact_rep<int16_t>(c);
    case 3: return exact_rep<uint16_t>(c);
    case 4: return exact_rep<int32_t>(c);
    case 5: return exact_rep<uint32_t>(c);
    case 6: return exact_rep<int64_t>(c);
    default: return exact_rep<uint64_t>(c);
    }
}

// Around the wrap of the counter, and the receiver stays as it is.
GROUP("P02", "wrap", 2000, 20000) {
    uint64_t v = 0 - c.rng.below(50);
    if (c.rng.coin()) { v = c.rng.below(50); }
    Timepoint t = tp(v);
    nanoseconds d(c.rng.range(-200000, 200000));
    nanoseconds o = d;
    Timepoint r = t.advance_from(d);
    CHECK((r - t).count() == o.count() / 1000 && d.count() == o.count() % 1000, "consume.wrap", "at " << v << " consumed " << o.count() << "ns");
    CHECK(t == tp(v), "consume.receiver", "advance_from changed its receiver");
    c.distinct(vf::Hash().add(v).add((uint64_t)o.count()));
    EV("consumed");
    if (o.count() < 0) { EV("negative"); }
}

namespace {

// A scripted clock; each instantiation has its own unit.
template<typename Period, int Id, bool Steady = true>
struct Scripted {
    using rep = int64_t;
    using period = Period;
    using duration = std::chrono::duration<rep, period>;
    using time_point = std::chrono::time_point<Scripted>;
    static constexpr bool is_steady = Steady;
    static inline int64_t value = 0;
    static inline uint64_t reads = 0;
    static time_point now() { ++reads; return time_point(duration(value)); }
};

// |m - r*num*1e6/den| < 1 with m a counter modulo 2^64.
template<typename P>
bool close(const Timepoint& t, int64_t reading, i128& err_num) {
    i128 exact_num = (i128)reading * P::num * 1000000; // /den
    i128 fl = exact_num / P::den;
    // candidate exact microseconds near fl
    uint64_t m = counter_of(t);
    int64_t diff = (int64_t)(m - (uint64_t)(int64_t)fl); // small when right
    err_num = (i128)diff * P::den - (exact_num - fl * P::den);
    return err_num < (i128)P::den && -err_num < (i128)P::den;
}

template<typename C>
void follow(vf::Ctx& c, const char* unit, bool back) {
    using P = typename C::period;
    constexpr i128 lim = (i128)std::numeric_limits<int64_t>::max() / 4;
    int64_t k = P::den < 1000000 ? P::num * (1000000 / P::den) : 1;
    int64_t l = (int64_t)(lim / k);
    int64_t start = signed_any(c.rng) % l;
    if (c.rng.coin()) { start = c.rng.range(-5000, 5000000); }
    if (!back && start < 0) { start = -start; }
    C::value = start;
    ck::ChronoClockConverter<C> conv;
    Timepoint prev = Timepoint::epoch();
    bool first = true;
    unsigned n = 1 + c.rng.below(40);
    bool frac = false;
    uint64_t readings = 0;
    std::string text;
    unsigned style = c.rng.below(4);
    for (unsigned i = 0; i < n; ++i) {
        int64_t old = C::value;
        int64_t d = 0;
        switch (style) {
        case 0: d = c.rng.range(0, 3000); break;
        case 1: d = (int64_t)(c.rng.skewed64() >> 1) % (l / 64); break;
        case 2: d = c.rng.range(0, 3); break;
        default: d = c.rng.chance(1, 4) ? 0 : c.rng.range(0, 2000000); break;
        }
        if (back && c.rng.chance(1, 3)) { d = -d; }
        i128 nv = (i128)old + d;
        if (nv > l || nv < -l) { d = 0; }
        C::value = old + d;
        text += std::to_string(C::value) + " ";
        Timepoint t = conv.now();
        ++readings;
        i128 err = 0;
        CHECK(close<P>(t, C::value, err), "clock.drift", unit << ": started at " << start << ", reading " << C::value << " is off by " << (double)err / (double)P::den << "us; readings " << text);
        if (!first && d >= 0) { CHECK(!t.is_before(prev), "clock.back", unit << ": went back at reading " << C::value << "; readings " << text); }
        if (!first && d == 0) { CHECK(t == prev, "clock.still", unit << ": same reading, other timepoint; readings " << text); }
        if (d < 0) { EV("clock stepped back"); }
        if (((i128)C::value * P::num * 1000000) % P::den != 0) { frac = true; EV("sub-microsecond remainder"); }
        prev = t;
        first = false;
    }
    EVN("readings", readings);
    if (frac || back) { c.distinct(vf::Hash().add(unit).add((uint64_t)start).add(text)); }
    if (c.idx % 101 == 0) { c.sample(std::string(unit) + ": start " + std::to_string(start) + ", readings " + text); }
}

using Ns = Scripted<std::nano, 1>;
using Ps = Scripted<std::pico, 2>;
using Hns = Scripted<std::ratio<1, 10000000>, 3>;
using Us = Scripted<std::micro, 4>;
using Ms = Scripted<std::milli, 5>;
using S = Scripted<std::ratio<1>, 6>;
using Us3 = Scripted<std::ratio<1, 3000000>, 7>;
using Sample = Scripted<std::ratio<1, 8000>, 8>;
using Fs = Scripted<std::femto, 9>;
using Min = Scripted<std::ratio<60>, 10>;
using Us1024 = Scripted<std::ratio<1, 1024000000>, 11, false>;

}

GROUP("P03", "scripted", 14000, 400000) {
    bool back = c.rng.chance(1, 3);
    switch (c.idx % 11) {
    case 7: return follow<Sample>(c, "1/8000s", back);
    case 8: return follow<Fs>(c, "fs", back);
    case 9: return follow<Min>(c, "min", back);
    case 10: return follow<Us1024>(c, "1/1024us", back);
    case 0: return follow<Ns>(c, "ns", back);
    case 1: return follow<Ps>(c, "ps", back);
    case 2: return follow<Hns>(c, "100ns", back);
    case 3: return follow<Us>(c, "us", back);
    case 4: return follow<Ms>(c, "ms", back);
    case 5: return follow<S>(c, "s", back);
    default: return follow<Us3>(c, "us/3", back);
    }
}

// A clock that goes on by itself: each reading is later than the one before. The
// timepoint lies between the readings made for it.
namespace {
template<typename Period, int Id>
struct Ticking {
    using rep = int64_t;
    using period = Period;
    using duration = std::chrono::duration<rep, period>;
    using time_point = std::chrono::time_point<Ticking>;
    static constexpr bool is_steady = true;
    static inline int64_t value = 0;
    static inline std::vector<int64_t> steps; // taken in turn, one for each reading
    static inline size_t reads = 0;
    static time_point now() { value += steps[reads++ % steps.size()]; return time_point(duration(value)); }
};
template<typename C>
void tick(vf::Ctx& c, const char* unit, int64_t max_step) {
    C::value = c.rng.chance(1, 3) ? (int64_t)(c.rng.u64() >> 24) : c.rng.range(0, 100000000);
    C::steps.clear();
    C::reads = 0;
    for (unsigned n = 1 + (unsigned)c.rng.below(7); n > 0; --n) { C::steps.push_back(c.rng.chance(1, 4) ? 0 : 1 + (int64_t)c.rng.below((uint64_t)max_step)); }
    auto work = [&](auto& conv, const char* what) {
        Timepoint prev = Timepoint::epoch();
        unsigned n = 1 + (unsigned)c.rng.below(12);
        for (unsigned i = 0; i < n; ++i) {
            int64_t before = C::value;
            size_t reads = C::reads;
            Timepoint t = conv.now();
            CHECK(C::reads > reads, "clock.not.read", unit << ": a timepoint was made without reading the clock");
            int64_t lo = before + C::steps[reads % C::steps.size()], hi = C::value;
            // Truncated microseconds on both sides.
            using P = typename C::period;
            auto micros = [](int64_t r) { return (i128)r * P::num * 1000000 / P::den; };
            i128 m = (i128)counter_of(t);
            CHECK(m >= micros(lo) - 1 && m <= micros(hi) + 1, "clock.moving", unit << ": " << what << " gives " << str(m) << "us at readings from " << lo << " to " << hi << " (reading " << i << ")");
            if (i) { CHECK(!t.is_before(prev), "clock.back", unit << ": " << what << " went back"); }
            prev = t;
            EV("readings of a moving clock");
        }
    };
    ck::ChronoClockConverter<C> a;
    work(a, "adapter");
    ck::ChronoClockConverter<C> b;
    work(b, "later adapter");
    work(a, "adapter");
    ck::ChronoClockConverter<C> copy(a);
    work(copy, "copy of the adapter");
    copy = b;
    work(copy, "assigned adapter");
    work(b, "later adapter");
    c.distinct(vf::Hash().add(unit).add((uint64_t)C::value));
}
}
GROUP("P03", "ticking", 4000, 100000) {
    switch (c.idx % 5) {
    case 0: return tick<Ticking<std::nano, 1>>(c, "ns", 5000000);
    case 1: return tick<Ticking<std::micro, 2>>(c, "us", 20000);
    case 2: return tick<Ticking<std::milli, 3>>(c, "ms", 500);
    case 3: return tick<Ticking<std::ratio<1>, 4>>(c, "s", 100);
    default: return tick<Ticking<std::ratio<1, 3000000>, 5>>(c, "us/3", 60000);
    }
}

// Very many readings: an error that adds up per reading shows here.
GROUP("P03", "long", 16, 64) {
    Ns::value = c.rng.range(0, 1000000000000ll);
    ck::ChronoClockConverter<Ns> conv;
    Timepoint prev = Timepoint::epoch();
    int64_t step = 1 + (int64_t)c.rng.below(c.idx % 2 ? 1000 : 3000);
    const unsigned n = c.thorough ? 3000000 : 200000;
    for (unsigned i = 0; i < n; ++i) {
        Ns::value += c.idx % 4 == 3 ? (int64_t)c.rng.below(2000) : step;
        Timepoint t = conv.now();
        i128 err = 0;
        CHECK(close<std::nano>(t, Ns::value, err), "clock.drift", "after " << i << " readings with step " << step << "ns off by " << (double)err / 1e9 << "us");
        if (i) { CHECK(!t.is_before(prev), "clock.back", "after " << i << " readings"); }
        prev = t;
    }
    EVN("readings", n);
    c.distinct(vf::Hash().add((uint64_t)Ns::value).add((uint64_t)step));
}

// Two adapters of the same clock agree to a microsecond, whenever they were made.
GROUP("P03", "agree", 2000, 20000) {
    Ns::value = c.rng.range(0, 1000000000000ll);
    ck::ChronoClockConverter<Ns> a;
    for (unsigned i = c.rng.below(20); i > 0; --i) { Ns::value += c.rng.range(0, 5000); (void)a.now(); }
    Ns::value += c.rng.range(0, 5000);
    ck::ChronoClockConverter<Ns> b;
    for (unsigned i = 0; i < 10; ++i) {
        Ns::value += c.rng.range(0, 5000);
        auto d = (a.now() - b.now()).count();
        CHECK(d >= -1 && d <= 1, "clock.agree", "two adapters differ by " << d << "us");
        EVN("readings", 2);
    }
    // A copy continues on its own.
    ck::ChronoClockConverter<Ns> copy(a);
    Ns::value += c.rng.range(0, 5000);
    Timepoint t1 = a.now(), t2 = copy.now();
    CHECK(t1 == t2, "clock.copy", "copy of the adapter differs by " << (t1 - t2).count());
    c.distinct(vf::Hash().add((uint64_t)Ns::value));
}

// The ready made source, on several threads, against the wrapped clock itself.
GROUP("P03", "steady", 8, 32) {
    struct Res { bool ok = true; std::string what; };
    auto work = [](Res& res, unsigned n) {
        Timepoint prev = ck::steady_clock_now();
        for (unsigned i = 0; i < n; ++i) {
            auto lo = steady_clock::now();
            Timepoint t = ck::steady_clock_now();
            auto hi = steady_clock::now();
            int64_t l = duration_cast<nanoseconds>(lo.time_since_epoch()).count(), h = duration_cast<nanoseconds>(hi.time_since_epoch()).count();
            int64_t m = (int64_t)counter_of(t);
            if (m * 1000 <= l - 1000 || m * 1000 >= h + 1000) { res.ok = false; res.what = "steady_clock_now " + std::to_string(m) + "us, clock between " + std::to_string(l) + "ns and " + std::to_string(h) + "ns"; return; }
            if (t.is_before(prev)) { res.ok = false; res.what = "steady_clock_now went back by " + std::to_string((prev - t).count()) + "us"; return; }
            prev = t;
            if (i % 1000 == 0) { std::this_thread::yield(); }
        }
    };
    const unsigned n = c.thorough ? 200000 : 30000;
    std::vector<Res> res(4);
    std::vector<std::thread> th;
    for (unsigned i = 1; i < 4; ++i) { th.emplace_back(work, std::ref(res[i]), n); }
    work(res[0], n);
    for (auto& t : th) { t.join(); }
    for (auto& r : res) { CHECK(r.ok, "clock.steady", r.what); }
    EVN("threads", 4);
    EVN("readings", n * 4);
    c.distinct(vf::Hash().add(c.idx));
}
