// Runtime of the monitors: cases, random workload, verdicts, observations.
//
// A harness is a set of GROUPs. A group belongs to a property and is a number of
// cases; a case is a function of (seed, group, index) only, so that each verdict
// can be replayed. A case drives the real library and tells the oracle's opinion
// with CHECK. Whatever ends the process (sanitizer report, abort, signal) is
// attributed by check.py to the case recorded in the state file.
#pragma once
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include <array>
#include <limits>
#include <optional>
#include <algorithm>
#include <chrono>
#include <utility>
#include "ambient.hpp"

#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    define VF_ASAN 1
#  endif
#  if __has_feature(thread_sanitizer)
#    define VF_TSAN 1
#  endif
#endif
#ifdef VF_ASAN
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#endif

namespace vf {

using Bytes = std::vector<uint8_t>;

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

class Rng {
public:
    explicit Rng(uint64_t s = 1) : m_s(s) {}
    uint64_t u64() { m_s += 0x9e3779b97f4a7c15ull; return mix(m_s); }
    uint32_t u32() { return (uint32_t)(u64() >> 32); }
    uint8_t u8() { return (uint8_t)(u64() >> 56); }
    // 0 .. n-1
    uint64_t below(uint64_t n) { return n == 0 ? 0 : u64() % n; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    bool coin() { return u64() >> 63; }
    template<typename C> auto& pick(C& c) { return c[below(c.size())]; }
    template<typename T> T one_of(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    Bytes bytes(size_t n) { Bytes b(n); for (auto& x : b) { x = u8(); } return b; }
    // Numbers of all magnitudes, and neighbours of powers of two.
    uint64_t skewed64() {
        switch (below(6)) {
        case 0: return below(4);
        case 1: return u64() >> below(64);
        case 2: return (1ull << below(64)) + (uint64_t)range(-2, 2);
        case 3: return ~(u64() >> below(64));
        case 4: return (uint64_t)0 - below(4);
        default: return u64();
        }
    }
private:
    uint64_t m_s;
};

// Addresses some code may find special; to this library each is an address.
inline Bytes special_ip(Rng& r) {
    auto v6 = [&](std::initializer_list<uint8_t> head, std::initializer_list<uint8_t> tail) {
        Bytes b(16);
        std::copy(head.begin(), head.end(), b.begin());
        std::copy(tail.begin(), tail.end(), b.end() - (long)tail.size());
        return b;
    };
    uint8_t x = r.u8(), y = r.u8(), z = r.u8();
    switch (r.below(20)) {
    case 0: return {0, 0, 0, 0};
    case 1: return {255, 255, 255, 255};
    case 2: return {127, 0, 0, (uint8_t)(r.coin() ? 1 : x)};
    case 3: return {10, x, y, z};
    case 4: return {192, 168, x, y};
    case 5: return {172, (uint8_t)(16 + x % 16), y, z};
    case 6: return {169, 254, x, y};
    case 7: return {(uint8_t)(224 + x % 16), x, y, z};
    case 8: return {0, x, y, z};
    case 9: return {x, y, z, r.one_of<uint8_t>({0, 255})};
    case 10: return v6({}, {});
    case 11: return v6({}, {1});
    case 12: case 13: return v6({}, {0xff, 0xff, x, y, z, (uint8_t)r.u8()});    // IPv4-mapped
    case 14: return v6({}, {x, y, z, (uint8_t)r.u8()});                         // IPv4-compatible
    case 15: return v6({0, 0x64, 0xff, 0x9b}, {x, y, z, (uint8_t)r.u8()});      // NAT64
    case 16: return v6({0xfe, 0x80}, {x, y, 0xff, 0xfe, z, 0, 1});              // link-local
    case 17: return v6({0xff, 2}, {x});                                         // multicast
    case 18: return v6({0x20, 2, x, y, z, 1}, {1});                             // 6to4
    default: return v6({(uint8_t)(r.coin() ? 0xfd : 0x20), 1, x, y}, {z});
    }
}

// Order dependent hash of observations.
class Hash {
public:
    Hash& add(uint64_t v) { m = mix(m ^ v) + 0x632be59bd9b4e019ull; return *this; }
    Hash& add(const void* p, size_t n) {
        add(n);
        for (size_t i = 0; i < n; ++i) { m = (m ^ ((const uint8_t*)p)[i]) * 0x100000001b3ull; }
        return *this;
    }
    Hash& add(const Bytes& b) { return add(b.data(), b.size()); }
    Hash& add(std::string_view s) { return add(s.data(), s.size()); }
    uint64_t get() const { return mix(m); }
private:
    uint64_t m = 0xcbf29ce484222325ull;
};

struct CaseFail {};

struct Ctx {
    Rng rng;
    const char* group;
    uint64_t idx;   // index of the case
    uint64_t total; // number of cases of the group
    uint64_t seed;
    bool thorough;
    bool dry;       // case is run again, observations were recorded already
    void distinct(uint64_t h);
    void distinct(const Hash& h) { distinct(h.get()); }
    void sample(const std::string&);
    bool wants_sample() const;
    [[noreturn]] void fail(const char* file, int line, const std::string& key, const std::string& msg);
};

using CaseFn = void (*)(Ctx&);

struct Group {
    const char* prop;
    const char* name;
    uint64_t quick;
    uint64_t thorough;
    CaseFn fn;
};

struct State { // shared with check.py through a file
    char group[64];
    volatile uint64_t idx;
    volatile uint64_t done;
};

struct Run {
    std::vector<Group> groups;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, std::vector<std::string>> samples;
    std::map<std::string, uint64_t> cases;
    std::vector<uint64_t> table; // open addressing set of hashes
    uint64_t used = 0;
    uint64_t seen = 0;
    std::string out;
    FILE* viol = nullptr;
    unsigned nviol = 0;
    State* state = nullptr;
    bool replay = false;
    volatile uint64_t tick_idx = ~0ull;
    volatile unsigned ticks = 0;
};
inline Run& run() { static Run r; return r; }

struct Reg { Reg(const Group& g) { run().groups.push_back(g); } };
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
// Cases of a group. The body sees `vf::Ctx& c`.
#define GROUP(prop, name, quick, thorough) \
    static void VF_CAT(vf_case_, __LINE__)(vf::Ctx&); \
    static vf::Reg VF_CAT(vf_reg_, __LINE__){vf::Group{prop, name, (quick), (thorough), &VF_CAT(vf_case_, __LINE__)}}; \
    static void VF_CAT(vf_case_, __LINE__)([[maybe_unused]] vf::Ctx& c)
// Same function serves another property, under another name.
#define CHECK(cond, key, msg) do { if (!(cond)) { std::ostringstream vf_s; vf_s << msg; c.fail(__FILE__, __LINE__, key, vf_s.str()); } } while (0)

inline uint64_t& counter(const char* n) { return run().counters[n]; }
// Counts an observed event.
// Repetitions of a case (search for leaks) do not count again.
inline bool& repeated() { static bool r = false; return r; }
#define EV(name) EVN(name, 1)
#define EVN(name, n) do { static uint64_t& vf_c = vf::counter(name); if (!vf::repeated()) { vf_c += (n); } } while (0)
inline void ev(const std::string& name) { if (!repeated()) { ++run().counters[name]; } }

inline void Ctx::distinct(uint64_t h) {
    if (dry) { return; }
    Run& r = run();
    ++r.seen;
    if (h == 0) { h = 1; }
    if (r.used * 2 > r.table.size()) { return; }
    size_t m = r.table.size() - 1;
    size_t i = h & m;
    while (r.table[i] != 0 && r.table[i] != h) { i = (i + 1) & m; }
    if (r.table[i] == 0) { r.table[i] = h; ++r.used; }
}

inline bool Ctx::wants_sample() const {
    if (dry) { return false; }
    auto it = run().samples.find(group);
    return it == run().samples.end() || it->second.size() < 2;
}
inline void Ctx::sample(const std::string& s) {
    if (wants_sample()) { run().samples[group].push_back(s.substr(0, 900)); }
}

inline std::string json(const std::string& s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
        else if (ch < 0x20 || ch >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else { r += (char)ch; }
    }
    return r + "\"";
}

inline void Ctx::fail(const char* file, int line, const std::string& key, const std::string& msg) {
    Run& r = run();
    const char* base = std::strrchr(file, '/');
    std::fprintf(stderr, "CHECK FAILED %s[%llu] %s: %s (%s:%d)\n", group, (unsigned long long)idx, key.c_str(), msg.c_str(), base ? base + 1 : file, line);
    if (r.viol && r.nviol < 50) {
        ++r.nviol;
        std::fprintf(r.viol, "{\"group\":%s,\"idx\":%llu,\"key\":%s,\"msg\":%s,\"line\":\"%s:%d\"}\n", json(group).c_str(), (unsigned long long)idx, json(key).c_str(), json(msg.substr(0, 3000)).c_str(), base ? base + 1 : file, line);
        std::fflush(r.viol);
    }
    throw CaseFail{};
}

inline std::string hex(const void* p, size_t n) {
    static const char* d = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n; ++i) { s += d[((const uint8_t*)p)[i] >> 4]; s += d[((const uint8_t*)p)[i] & 15]; }
    return s;
}
template<typename C> std::string hex(const C& c) { return hex(c.data(), c.size()); }
inline std::string quoted(std::string_view s) {
    std::string r = "'";
    for (unsigned char ch : s) {
        if (ch < 0x20 || ch >= 0x7f || ch == '\\' || ch == '\'') { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", ch); r += b; } else { r += (char)ch; }
    }
    return r + "'";
}

// Copy of the data in a heap block of exactly that size: any access beyond it is
// an ASan (or memcheck) report. The position of the data can be misaligned.
class Exact {
public:
    Exact(const void* p, size_t n, size_t misalign = 0) : m_n(n), m_off(misalign) {
        m_p = (uint8_t*)std::malloc(n + misalign ? n + misalign : 1);
        if (n != 0) { std::memcpy(m_p + m_off, p, n); }
#ifdef VF_ASAN
        if (n + misalign == 0) { __asan_poison_memory_region(m_p, 1); }
        else if (m_off >= 8) { __asan_poison_memory_region(m_p, m_off & ~7ull); }
#endif
    }
    explicit Exact(const Bytes& b, size_t misalign = 0) : Exact(b.data(), b.size(), misalign) {}
    explicit Exact(std::string_view s, size_t misalign = 0) : Exact(s.data(), s.size(), misalign) {}
    Exact(const Exact&) = delete;
    Exact& operator=(const Exact&) = delete;
    ~Exact() { release(); }
    // Overwrites and frees: who still refers to the data gets caught.
    void release() {
        if (m_p == nullptr) { return; }
#ifdef VF_ASAN
        __asan_unpoison_memory_region(m_p, m_n + m_off ? m_n + m_off : 1);
#endif
        std::memset(m_p, 0xEE, m_n + m_off);
        std::free(m_p);
        m_p = nullptr;
    }
    const uint8_t* data() const { return m_p + m_off; }
    uint8_t* data() { return m_p + m_off; }
    size_t size() const { return m_n; }
    std::string_view sv() const { return {(const char*)data(), m_n}; }
private:
    uint8_t* m_p;
    size_t m_n;
    size_t m_off;
};

inline long long allocated() {
#ifdef VF_ASAN
    return (long long)__sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

inline constexpr unsigned HANG_CPU_SECONDS = 30;
inline void on_tick(int) {
    Run& r = run();
    if (r.state == nullptr) { return; }
    if (r.tick_idx != r.state->done) { r.tick_idx = r.state->done; r.ticks = 0; return; }
    if (++r.ticks >= HANG_CPU_SECONDS) { _exit(77); }
}

inline bool run_case(const Group& g, uint64_t idx, uint64_t total, uint64_t seed, bool thorough, bool dry) {
    uint64_t h = mix(seed);
    for (const char* p = g.name; *p; ++p) { h = mix(h ^ (uint8_t)*p); }
    Ctx c{Rng(mix(h ^ mix(idx))), g.name, idx, total, seed, thorough, dry};
    repeated() = dry;
    try {
        g.fn(c);
        return true;
    } catch (const CaseFail&) {
        return false;
    } catch (const std::exception& e) {
        try { c.fail("exception", 0, "exception", std::string("unexpected exception: ") + e.what()); } catch (const CaseFail&) {}
    } catch (...) {
        try { c.fail("exception", 0, "exception", "unexpected exception"); } catch (const CaseFail&) {}
    }
    return false;
}

inline int main_(int argc, char** argv) {
    std::string prop, only_group;
    uint64_t seed = 1, shard = 0, shards = 1, only_idx = ~0ull;
    double scale = 1;
    bool thorough = false, list = false, leaks = true;
    Run& r = run();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") { prop = next(); }
        else if (a == "--seed") { seed = std::strtoull(next().c_str(), nullptr, 10); }
        else if (a == "--thorough") { thorough = true; }
        else if (a == "--shard") { shard = std::strtoull(next().c_str(), nullptr, 10); shards = std::strtoull(next().c_str(), nullptr, 10); }
        else if (a == "--out") { r.out = next(); }
        else if (a == "--group") { only_group = next(); }
        else if (a == "--idx") { only_idx = std::strtoull(next().c_str(), nullptr, 10); r.replay = true; }
        else if (a == "--scale") { scale = std::strtod(next().c_str(), nullptr); }
        else if (a == "--no-leaks") { leaks = false; }
        else if (a == "--locale") { std::string l = next(); if (!ambient::enter(l)) { std::fprintf(stderr, "no locale %s\n", l.c_str()); return 64; } ev("run in locale " + l); }
        else if (a == "--list") { list = true; }
        else { std::fprintf(stderr, "unknown argument %s\n", a.c_str()); return 64; }
    }
    if (list) {
        for (auto& g : r.groups) { std::printf("%s %s %llu %llu\n", g.prop, g.name, (unsigned long long)g.quick, (unsigned long long)g.thorough); }
        return 0;
    }
    r.table.resize(1u << 20);
    if (!r.out.empty()) {
        r.viol = std::fopen((r.out + ".viol").c_str(), "w");
        int fd = ::open((r.out + ".state").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ::ftruncate(fd, sizeof(State)) != 0) { std::perror("state"); return 65; }
        r.state = (State*)::mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (r.state == MAP_FAILED) { std::perror("mmap"); return 65; }
#ifndef VF_TSAN
        struct sigaction sa {};
        sa.sa_handler = on_tick;
        sa.sa_flags = SA_RESTART;
        ::sigaction(SIGPROF, &sa, nullptr);
        struct itimerval tv { {1, 0}, {1, 0} };
        ::setitimer(ITIMER_PROF, &tv, nullptr);
#endif
    }
    bool ok = true;
    for (auto& g : r.groups) {
        if ((!prop.empty() && prop != g.prop) || (!only_group.empty() && only_group != g.name)) { continue; }
        uint64_t n = thorough ? g.thorough : g.quick;
        n = (uint64_t)((double)n * scale);
        if (n == 0) { n = 1; }
        if (r.state) { std::snprintf(r.state->group, sizeof r.state->group, "%s", g.name); }
        uint64_t group_failures = 0;
        for (uint64_t i = 0; i < n; ++i) {
            if (only_idx != ~0ull ? i != only_idx : i % shards != shard) { continue; }
            if (r.state) { r.state->idx = i; r.state->done = r.state->done + 1; }
            ++r.cases[g.name];
            long long before = leaks ? allocated() : 0;
            bool one = run_case(g, i, n, seed, thorough, false);
            if (one && leaks && allocated() > before) {
                // Growth may be first-use state; growth by each repetition is a leak.
                long long g1 = allocated();
                bool ok2 = run_case(g, i, n, seed, thorough, true);
                long long g2 = allocated();
                bool ok3 = ok2 && run_case(g, i, n, seed, thorough, true);
                long long g3 = allocated();
                one = ok3;
                if (ok3 && g2 > g1 && g3 > g2) {
                    bool ok4 = run_case(g, i, n, seed, thorough, true);
                    if (ok4 && allocated() > g3) {
                        Ctx c{Rng(0), g.name, i, n, seed, thorough, true};
                        try { CHECK(false, "leak", "each run of the case leaks memory: " << (g3 - g2) << " bytes"); } catch (const CaseFail&) {}
                        one = false;
                    }
                }
            }
            ok = ok && one;
            if (!one && ++group_failures >= 5) { break; }
        }
    }
    if (!r.out.empty()) {
        FILE* f = std::fopen((r.out + ".json").c_str(), "w");
        std::fprintf(f, "{\"complete\":true,\"seen\":%llu,\"cases\":{", (unsigned long long)r.seen);
        const char* sep = "";
        for (auto& [k, v] : r.cases) { std::fprintf(f, "%s%s:%llu", sep, json(k).c_str(), (unsigned long long)v); sep = ","; }
        std::fprintf(f, "},\"events\":{"); sep = "";
        for (auto& [k, v] : r.counters) { std::fprintf(f, "%s%s:%llu", sep, json(k).c_str(), (unsigned long long)v); sep = ","; }
        std::fprintf(f, "},\"samples\":["); sep = "";
        for (auto& [k, v] : r.samples) { for (auto& s : v) { std::fprintf(f, "%s{\"group\":%s,\"case\":%s}", sep, json(k).c_str(), json(s).c_str()); sep = ","; } }
        std::fprintf(f, "]}\n");
        std::fclose(f);
        f = std::fopen((r.out + ".hash").c_str(), "wb");
        for (auto h : r.table) { if (h) { std::fwrite(&h, 8, 1, f); } }
        std::fclose(f);
        if (r.viol) { std::fclose(r.viol); r.viol = nullptr; }
    }
    return ok || !r.out.empty() ? 0 : 1;
}

}

#ifndef VF_NO_MAIN
int main(int argc, char** argv) { return vf::main_(argc, argv); }
#endif
