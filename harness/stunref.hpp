// Independent STUN model: encoder and decoder written from RFC 5389 / 3489,
// without any code of the library.
#pragma once
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <map>
#include "common.hpp"

namespace ref {

using vf::Bytes;
using vf::Rng;

enum : uint16_t {
    A_MAPPED = 0x0001, A_USERNAME = 0x0006, A_INTEGRITY = 0x0008, A_ERROR = 0x0009, A_UNKNOWN = 0x000A, A_XOR = 0x0020,
    A_PRIORITY = 0x0024, A_USE = 0x0025, A_SOFTWARE = 0x8022, A_ALTERNATE = 0x8023, A_FINGERPRINT = 0x8028, A_CONTROLLED = 0x8029, A_CONTROLLING = 0x802A
};
inline const std::vector<uint16_t>& known_types() {
    static const std::vector<uint16_t> v{A_MAPPED, A_USERNAME, A_INTEGRITY, A_ERROR, A_UNKNOWN, A_XOR, A_PRIORITY, A_USE, A_SOFTWARE, A_ALTERNATE, A_FINGERPRINT, A_CONTROLLED, A_CONTROLLING};
    return v;
}
inline bool is_known(uint16_t t) { for (auto k : known_types()) { if (k == t) { return true; } } return false; }

constexpr uint32_t COOKIE = 0x2112A442;
constexpr uint32_t FP_XOR = 0x5354554e;

inline void put16(Bytes& b, uint32_t v) { b.push_back((uint8_t)(v >> 8)); b.push_back((uint8_t)v); }
inline void put32(Bytes& b, uint32_t v) { put16(b, v >> 16); put16(b, v & 0xffff); }
inline void put64(Bytes& b, uint64_t v) { put32(b, (uint32_t)(v >> 32)); put32(b, (uint32_t)v); }
inline uint32_t get16(const uint8_t* p) { return (uint32_t)p[0] << 8 | p[1]; }
inline uint32_t get32(const uint8_t* p) { return get16(p) << 16 | get16(p + 2); }
inline uint64_t get64(const uint8_t* p) { return (uint64_t)get32(p) << 32 | get32(p + 4); }

// Bit by bit.
inline uint32_t crc32(const uint8_t* p, size_t n) {
    uint32_t crc = 0xffffffff;
    for (size_t i = 0; i < n; ++i) {
        crc ^= p[i];
        for (int k = 0; k < 8; ++k) { crc = crc >> 1 ^ (crc & 1 ? 0xedb88320u : 0); }
    }
    return ~crc;
}
inline uint32_t crc32(const Bytes& b) { return crc32(b.data(), b.size()); }

inline Bytes hmac_sha1(const Bytes& key, const Bytes& data) {
    unsigned n = 0;
    Bytes r(EVP_MAX_MD_SIZE);
    static const uint8_t none = 0;
    HMAC(EVP_sha1(), key.empty() ? &none : key.data(), (int)key.size(), data.data(), data.size(), r.data(), &n);
    r.resize(n);
    return r;
}
inline Bytes bytes_of(std::string_view s) { return Bytes(s.begin(), s.end()); }

inline uint16_t msg_type(unsigned cls, unsigned method) {
    return (uint16_t)((method & 0xf) | (method & 0x70) << 1 | (method & 0xf80) << 2 | (cls & 1) << 4 | (cls & 2) << 7);
}
inline unsigned cls_of(uint16_t t) { return (t >> 4 & 1) | (t >> 7 & 2); }

// The length of a packet as the integrity sees it: up to the end of the integrity
// attribute that starts at `off`.
inline Bytes integrity_of(const Bytes& packet, size_t off, const Bytes& key) {
    Bytes d(packet.begin(), packet.begin() + off);
    size_t len = off + 24 - 20;
    d[2] = (uint8_t)(len >> 8);
    d[3] = (uint8_t)len;
    return hmac_sha1(key, d);
}

class Enc {
public:
    // 12 byte id: with cookie, 16 byte id: RFC 3489.
    Enc(uint16_t type, const Bytes& tid) {
        put16(b, type);
        put16(b, 0);
        if (tid.size() == 12) { put32(b, COOKIE); }
        b.insert(b.end(), tid.begin(), tid.end());
    }
    Enc& attr(uint16_t type, const Bytes& v, uint8_t pad = 0) {
        put16(b, type);
        put16(b, (uint32_t)v.size());
        b.insert(b.end(), v.begin(), v.end());
        while (b.size() % 4 != 0) { b.push_back(pad); }
        return *this;
    }
    Enc& integrity(const Bytes& key) {
        Bytes mac = integrity_of(b, b.size(), key);
        return attr(A_INTEGRITY, mac);
    }
    Enc& fingerprint() {
        set_len(b.size() + 8 - 20);
        uint32_t crc = crc32(b) ^ FP_XOR;
        Bytes v;
        put32(v, crc);
        return attr(A_FINGERPRINT, v);
    }
    Bytes bytes() { set_len(b.size() - 20); return b; }
    size_t size() const { return b.size(); }
private:
    void set_len(size_t n) { b[2] = (uint8_t)(n >> 8); b[3] = (uint8_t)n; }
    Bytes b;
};

// Sets four bytes at the offset to what makes CRC of the first n bytes the one wanted.
inline void force_crc(Bytes& p, size_t at, size_t n, uint32_t want) {
    auto crc_with = [&](uint32_t x) { for (int i = 0; i < 4; ++i) { p[at + (size_t)i] = (uint8_t)(x >> (8 * i)); } return crc32(p.data(), n); };
    uint32_t zero = crc_with(0), rows[32], from[32];
    for (int i = 0; i < 32; ++i) { rows[i] = crc_with(1u << i) ^ zero; from[i] = 1u << i; }
    uint32_t left = want ^ zero, x = 0;
    for (int bit = 31; bit >= 0; --bit) { // CRC is linear
        int k = 0;
        while (k < 32 && !(rows[k] >> bit == 1)) { ++k; }
        if (k == 32) { continue; }
        for (int j = 0; j < 32; ++j) { if (j != k && (rows[j] >> bit & 1)) { rows[j] ^= rows[k]; from[j] ^= from[k]; } }
        if (left >> bit & 1) { left ^= rows[k]; x ^= from[k]; }
    }
    crc_with(x);
}

// Sets fingerprint to the correct value if the message has one at its end.
inline void refresh_fingerprint(Bytes& p) {
    size_t n = p.size();
    if (n >= 28 && get16(&p[n - 8]) == A_FINGERPRINT && get16(&p[n - 6]) == 4) {
        uint32_t crc = crc32(p.data(), n - 8) ^ FP_XOR;
        for (int i = 0; i < 4; ++i) { p[n - 4 + i] = (uint8_t)(crc >> (24 - 8 * i)); }
    }
}

struct Addr {
    Bytes ip; // 4 or 16
    uint16_t port = 0;
    bool operator==(const Addr&) const = default;
};
inline Bytes random_tid(Rng& r) {
    Bytes t = r.bytes(12);
    switch (r.below(24)) {
    case 0: return Bytes(12, r.coin() ? 0 : 0xff);
    case 1: for (size_t i = 0; i < 4; ++i) { t[i] = (uint8_t)(COOKIE >> (24 - 8 * i)); } return t;
    case 2: for (auto& x : t) { x = r.one_of<uint8_t>({0, 0xff}); } return t;
    case 3: std::fill(t.begin() + (long)r.below(12), t.end(), 0); return t;
    default: return t;
    }
}
inline Addr random_addr(Rng& r) {
    Addr a;
    a.ip = r.bytes(r.coin() ? 4 : 16);
    if (r.chance(1, 8)) { std::fill(a.ip.begin(), a.ip.end(), r.coin() ? 0 : 0xff); }
    if (r.chance(1, 8)) { // the cookie itself
        for (int i = 0; i < 4; ++i) { a.ip[i] = (uint8_t)(COOKIE >> (24 - 8 * i)); }
    }
    if (r.chance(1, 4)) { a.ip = vf::special_ip(r); }
    a.port = r.chance(1, 8) ? r.one_of<uint16_t>({0, 1, 0x2112, 0xffff, 0x7fff, 0x8000, 3478, 5349}) : (uint16_t)r.u32();
    return a;
}
inline Bytes addr_value(const Addr& a, uint8_t first = 0) {
    Bytes v{first, (uint8_t)(a.ip.size() == 4 ? 1 : 2)};
    put16(v, a.port);
    v.insert(v.end(), a.ip.begin(), a.ip.end());
    return v;
}
inline Bytes xor_mask(const Bytes& tid12) {
    Bytes m;
    put32(m, COOKIE);
    m.insert(m.end(), tid12.begin(), tid12.end());
    return m;
}
inline Addr xored(const Addr& a, const Bytes& tid12) {
    Addr x = a;
    Bytes m = xor_mask(tid12);
    for (size_t i = 0; i < x.ip.size(); ++i) { x.ip[i] ^= i < m.size() ? m[i] : 0; }
    x.port ^= 0x2112;
    return x;
}

struct Attr {
    uint16_t type;
    Bytes value;
    size_t off; // of the attribute header
};

struct Decoded {
    bool ok = false;
    bool lenient = false;   // has a value longer than needed: acceptance is not specified
    const char* reason = ""; // counter of the first violated rule
    uint16_t bad_type = 0;   // attribute that violates it
    Bytes bad;               // and its value
    uint16_t type = 0;
    bool rfc3489 = false;
    Bytes tid;
    std::map<uint16_t, Bytes> known;            // first value of each type
    std::vector<std::pair<uint16_t, Bytes>> unknown;
    std::vector<Attr> walk;                     // all attributes on the wire
    size_t integrity_off = 0;                   // 0: not signed
    bool fingerprint = false;

    unsigned cls() const { return cls_of(type); }
    bool has(uint16_t t) const { return known.count(t) != 0; }
    std::vector<uint16_t> required_unknown() const {
        std::vector<uint16_t> r;
        for (auto& [t, v] : unknown) { if (t < 0x8000) { r.push_back(t); } }
        return r;
    }
    bool signed_by(const Bytes& packet, const Bytes& key) const {
        return integrity_off != 0 && integrity_of(packet, integrity_off, key) == known.at(A_INTEGRITY);
    }
    static Addr addr(const Bytes& v) { return Addr{Bytes(v.begin() + 4, v.end()), (uint16_t)get16(&v[2])}; }
    unsigned error_code() const { auto& v = known.at(A_ERROR); return (v[2] & 7) * 100 + v[3]; }
};

// Reason of rejection of an attribute value, or nullptr.
inline const char* bad_value(uint16_t type, const Bytes& v, bool& lenient) {
    auto mapped = [&]() -> const char* {
        if (v.size() < 4) { return "invalid_mapped_address"; }
        size_t need = v[1] == 1 ? 4 : v[1] == 2 ? 16 : 0;
        return need == 0 || v.size() - 4 != need ? "invalid_ip_address" : nullptr;
    };
    auto fixed = [&](size_t n, const char* reason) -> const char* {
        if (v.size() < n) { return reason; }
        if (v.size() > n) { lenient = true; }
        return nullptr;
    };
    switch (type) {
    case A_MAPPED: case A_ALTERNATE: return mapped();
    case A_XOR: {
        const char* r = mapped();
        return r != nullptr && v.size() < 4 ? "invalid_xor_mapped_address" : r;
    }
    case A_INTEGRITY: return v.size() == 20 ? nullptr : "invalid_message_integrity";
    case A_FINGERPRINT: return fixed(4, "invalid_fingerprint_size");
    case A_PRIORITY: return fixed(4, "invalid_priority_size");
    case A_CONTROLLED: return fixed(8, "invalid_ice_controlled_size");
    case A_CONTROLLING: return fixed(8, "invalid_ice_controlling_size");
    case A_USE: return v.empty() ? nullptr : "invalid_use_candidate_size";
    case A_ERROR: return v.size() < 4 ? "invalid_error_code_size" : nullptr;
    case A_UNKNOWN: return v.size() % 2 == 0 ? nullptr : "invalid_unknown_attributes_attr_size";
    default: return nullptr;
    }
}

inline Decoded decode(const Bytes& p) {
    Decoded d;
    auto reject = [&](const char* r) { d.ok = false; d.reason = r; return d; };
    if (p.size() < 20) { return reject("invalid_size"); }
    d.type = (uint16_t)get16(&p[0]);
    if (d.type & 0xc000) { return reject("invalid_message_type"); }
    size_t len = get16(&p[2]);
    if (len % 4 != 0) { return reject("not_padded"); }
    if (len != p.size() - 20) { return reject("message_length_error"); }
    bool cookie = get32(&p[4]) == COOKIE;
    if (!cookie && cls_of(d.type) != 0) { return reject("magic_cookie_error"); }
    d.rfc3489 = !cookie;
    d.tid.assign(p.begin() + (cookie ? 8 : 4), p.begin() + 20);
    std::vector<Attr> taken;
    size_t off = 20;
    while (off < p.size()) {
        if (p.size() - off < 4) { return reject("invalid_attr_size"); }
        uint16_t t = (uint16_t)get16(&p[off]);
        size_t n = get16(&p[off + 2]);
        if (n > p.size() - off - 4) { return reject("invalid_attr_size"); }
        Attr a{t, Bytes(p.begin() + off + 4, p.begin() + off + 4 + n), off};
        d.walk.push_back(a);
        size_t next = off + 4 + (n + 3) / 4 * 4;
        if (t == A_FINGERPRINT) {
            if (next < p.size()) { return reject("fingerprint_not_last"); }
            taken.push_back(a);
        } else if (d.integrity_off == 0) {
            taken.push_back(a);
            if (t == A_INTEGRITY) { d.integrity_off = off; }
        }
        off = next;
    }
    for (auto& a : taken) {
        if (const char* r = bad_value(a.type, a.value, d.lenient)) { d.bad_type = a.type; d.bad = a.value; return reject(r); }
        if (is_known(a.type)) { d.known.emplace(a.type, a.value); } else { d.unknown.emplace_back(a.type, a.value); }
        if (a.type == A_FINGERPRINT) { d.fingerprint = true; }
    }
    if (d.fingerprint) {
        auto& a = taken.back();
        if (crc32(p.data(), a.off) != (get32(a.value.data()) ^ FP_XOR)) { return reject("invalid_fingerprint"); }
    }
    d.ok = true;
    return d;
}

// A value that is right for the type.
inline Bytes random_value(Rng& r, uint16_t type, const Bytes& tid) {
    Bytes v;
    switch (type) {
    case A_MAPPED: case A_ALTERNATE: return addr_value(random_addr(r), r.chance(1, 4) ? r.u8() : 0);
    case A_XOR: return addr_value(random_addr(r), r.chance(1, 4) ? r.u8() : 0);
    case A_ERROR:
        put16(v, r.chance(1, 4) ? r.u32() & 0xffff : 0);
        v.push_back((uint8_t)(r.chance(1, 4) ? r.u8() : r.range(3, 6)));
        v.push_back((uint8_t)(r.chance(1, 8) ? r.u8() : r.below(100)));
        if (r.coin()) { Bytes x = r.bytes(r.below(30)); v.insert(v.end(), x.begin(), x.end()); }
        return v;
    case A_UNKNOWN: return r.bytes(2 * (r.chance(1, 20) ? r.below(700) : r.below(8)));
    case A_PRIORITY: case A_FINGERPRINT: case A_CONTROLLED: case A_CONTROLLING: {
        size_t n = type == A_PRIORITY || type == A_FINGERPRINT ? 4 : 8;
        if (!r.chance(1, 6)) { return r.bytes(n); }
        uint64_t x = n == 4 && r.coin() ? r.skewed64() << 32 : r.skewed64();
        for (size_t i = 0; i < n; ++i) { v.push_back((uint8_t)(x >> (56 - 8 * i))); }
        return v;
    }
    case A_INTEGRITY: return r.bytes(20);
    case A_USE: return v;
    default: return r.bytes(r.chance(1, 20) ? r.below(600) : r.below(24));
    }
}
inline uint16_t random_unknown_type(Rng& r) {
    for (;;) {
        uint16_t t = (uint16_t)r.u32();
        switch (r.below(6)) {
        case 0: case 1: t = (uint16_t)(r.pick(known_types()) ^ (1u << r.below(16))); break;
        case 2: t = (uint16_t)(r.one_of<unsigned>({0, 0x4000, 0x7fff, 0x8000, 0xc000, 0xffff}) + (unsigned)r.below(3) - 1); break;
        default: break;
        }
        if (!is_known(t)) { return t; }
    }
}
inline uint16_t random_unknown_type(Rng& r, bool required) {
    for (;;) {
        uint16_t t = random_unknown_type(r);
        t = (uint16_t)(required ? t & 0x7fff : t | 0x8000);
        if (!is_known(t)) { return t; }
    }
}

struct Sample {
    Bytes packet;
    Bytes key; // empty: was not signed for real
    bool is_signed = false;
    size_t integrity_off = 0;
    bool has_fingerprint = false;
};
// A well formed message.
inline Sample random_message(Rng& r) {
    Sample s;
    unsigned cls = (unsigned)r.below(4);
    bool old = cls == 0 && r.chance(1, 5);
    Bytes tid = old ? r.bytes(16) : random_tid(r);
    if (old && get32(tid.data()) == COOKIE) { tid[0] ^= 1; }
    uint16_t type = msg_type(cls, r.coin() ? 1 : (unsigned)r.below(4096));
    Enc e(type, tid);
    auto some = [&](unsigned n) {
        while (n--) {
            uint16_t t;
            do { t = r.chance(1, 4) ? random_unknown_type(r) : r.pick(known_types()); } while (t == A_INTEGRITY || t == A_FINGERPRINT);
            e.attr(t, random_value(r, t, tid), r.coin() ? 0 : r.u8());
        }
    };
    some((unsigned)r.below(r.chance(1, 10) ? 20 : 6));
    if (r.coin()) {
        s.integrity_off = e.size();
        if (r.chance(3, 4)) { s.key = r.bytes(r.one_of<size_t>({0, 1, 8, 20, 63, 64, 65, 100})); e.integrity(s.key); s.is_signed = true; }
        else { e.attr(A_INTEGRITY, r.bytes(20)); }
        if (r.chance(1, 3)) { // ignored ones, of any contents
            unsigned n = 1 + (unsigned)r.below(3);
            while (n--) {
                uint16_t t = r.coin() ? r.pick(known_types()) : random_unknown_type(r);
                if (t != A_FINGERPRINT) { e.attr(t, r.coin() ? random_value(r, t, tid) : r.bytes(r.below(30)), r.u8()); }
            }
        }
    }
    if (r.coin()) { e.fingerprint(); s.has_fingerprint = true; }
    s.packet = e.bytes();
    return s;
}

// One hostile change.
// Words in the place of the magic cookie that are not the cookie.
inline uint32_t odd_cookie(Rng& r, unsigned which) {
    switch (which) {
    case 0: return 0;
    case 1: return 0xffffffff;
    case 2: return __builtin_bswap32(COOKIE);
    case 3: return r.coin() ? COOKIE + 1 : COOKIE - 1;
    default: switch (r.below(6)) {
        case 0: return COOKIE & 0xffff0000;
        case 1: return COOKIE & 0xffff;
        case 2: return ~COOKIE;
        case 3: return COOKIE << 16 | COOKIE >> 16;
        case 4: return 1;
        default: return 0x80000000;
        }
    }
}
inline void mutate(Rng& r, Bytes& p) {
    if (p.empty()) { p.push_back(r.u8()); return; }
    switch (r.below(13)) {
    case 0: p[r.below(p.size())] ^= (uint8_t)(1u << r.below(8)); break;
    case 1: p[r.below(p.size())] = r.u8(); break;
    case 2: p.resize(r.below(p.size())); break;
    case 3: { Bytes x = r.bytes(1 + r.below(8)); p.insert(p.end(), x.begin(), x.end()); break; }
    case 4: if (p.size() >= 4) { size_t n = p.size() - 20 + (size_t)r.range(-5, 5); p[2] = (uint8_t)(n >> 8); p[3] = (uint8_t)n; } break;
    case 5:
        if (p.size() >= 8) {
            if (r.coin()) { p[4 + r.below(4)] ^= (uint8_t)(1u << r.below(8)); break; }
            uint32_t w = odd_cookie(r, (unsigned)r.below(5));
            for (int k = 0; k < 4; ++k) { p[4 + k] = (uint8_t)(w >> (24 - 8 * k)); }
        }
        break;
    case 6: if (p.size() >= 2) { uint16_t t = (uint16_t)r.u32(); p[0] = (uint8_t)(t >> 8); p[1] = (uint8_t)t; } break;
    case 7: case 8: { // attribute length
        std::vector<size_t> offs;
        for (size_t o = 20; o + 4 <= p.size(); ) { offs.push_back(o); o += 4 + (get16(&p[o + 2]) + 3) / 4 * 4; }
        if (!offs.empty()) {
            size_t o = r.pick(offs);
            int v = (int)get16(&p[o + 2]) + (int)r.range(-6, 6);
            if (r.chance(1, 5)) { v = (int)r.u32(); }
            p[o + 2] = (uint8_t)(v >> 8); p[o + 3] = (uint8_t)v;
        }
        break;
    }
    case 9: { // attribute type
        std::vector<size_t> offs;
        for (size_t o = 20; o + 4 <= p.size(); ) { offs.push_back(o); o += 4 + (get16(&p[o + 2]) + 3) / 4 * 4; }
        if (!offs.empty()) {
            size_t o = r.pick(offs);
            uint16_t t = r.coin() ? r.pick(known_types()) : random_unknown_type(r);
            p[o] = (uint8_t)(t >> 8); p[o + 1] = (uint8_t)t;
        }
        break;
    }
    case 10: { // add an attribute, length is right
        uint16_t t = r.coin() ? r.pick(known_types()) : random_unknown_type(r);
        Bytes v = r.bytes(r.below(28));
        put16(p, t); put16(p, (uint32_t)v.size());
        p.insert(p.end(), v.begin(), v.end());
        while (p.size() % 4 != 0) { p.push_back(r.u8()); }
        if (p.size() >= 20) { size_t n = p.size() - 20; p[2] = (uint8_t)(n >> 8); p[3] = (uint8_t)n; }
        break;
    }
    case 11: { // remove the tail, length is right
        if (p.size() > 24) { p.resize(20 + r.below((p.size() - 20) / 4) * 4); size_t n = p.size() - 20; p[2] = (uint8_t)(n >> 8); p[3] = (uint8_t)n; }
        break;
    }
    default: refresh_fingerprint(p); break;
    }
}

}
