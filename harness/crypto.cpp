// P09: keyed hash and hash functions against independent implementations.
#include <openssl/crypto.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include "common.hpp"
#include "cryptofail.hpp"
#include "crypto/crypto_hash.hpp"
#include "crypto/crypto_hmac.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "util/util_error.hpp"

using namespace freewebrtc;
using vf::Bytes;
using View = util::ConstBinaryView;

namespace {

// ---- SHA-1 (FIPS 180) and MD5 (RFC 1321), written for the oracle.
uint32_t rol(uint32_t v, unsigned n) { return v << n | v >> (32 - n); }

Bytes pad(const Bytes& m, bool big) {
    Bytes p = m;
    uint64_t bits = (uint64_t)m.size() * 8;
    p.push_back(0x80);
    while (p.size() % 64 != 56) { p.push_back(0); }
    for (int i = 0; i < 8; ++i) { p.push_back((uint8_t)(bits >> (big ? 56 - 8 * i : 8 * i))); }
    return p;
}

Bytes ref_sha1(const Bytes& m) {
    uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
    Bytes p = pad(m, true);
    for (size_t o = 0; o < p.size(); o += 64) {
        uint32_t w[80];
        for (int i = 0; i < 16; ++i) { w[i] = (uint32_t)p[o + 4 * i] << 24 | (uint32_t)p[o + 4 * i + 1] << 16 | (uint32_t)p[o + 4 * i + 2] << 8 | p[o + 4 * i + 3]; }
        for (int i = 16; i < 80; ++i) { w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1); }
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; ++i) {
            uint32_t f, k;
            if (i < 20) { f = (b & c) | (~b & d); k = 0x5a827999; }
            else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1; }
            else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdc; }
            else { f = b ^ c ^ d; k = 0xca62c1d6; }
            uint32_t t = rol(a, 5) + f + e + k + w[i];
            e = d; d = c; c = rol(b, 30); b = a; a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    Bytes r;
    for (uint32_t x : h) { for (int i = 24; i >= 0; i -= 8) { r.push_back((uint8_t)(x >> i)); } }
    return r;
}

Bytes ref_md5(const Bytes& m) {
    static const unsigned S[64] = {7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20,
                                   4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21};
    static const std::array<uint32_t, 64> K = [] {
        std::array<uint32_t, 64> k{};
        for (int i = 0; i < 64; ++i) { k[i] = (uint32_t)(uint64_t)(4294967296.0L * __builtin_fabsl(__builtin_sinl((long double)(i + 1)))); }
        return k;
    }();
    uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
    Bytes p = pad(m, false);
    for (size_t o = 0; o < p.size(); o += 64) {
        uint32_t w[16];
        for (int i = 0; i < 16; ++i) { w[i] = p[o + 4 * i] | (uint32_t)p[o + 4 * i + 1] << 8 | (uint32_t)p[o + 4 * i + 2] << 16 | (uint32_t)p[o + 4 * i + 3] << 24; }
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
        for (unsigned i = 0; i < 64; ++i) {
            uint32_t f; unsigned g;
            if (i < 16) { f = (b & c) | (~b & d); g = i; }
            else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
            else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; }
            else { f = c ^ (b | ~d); g = (7 * i) % 16; }
            f += a + K[i] + w[g];
            a = d; d = c; c = b; b += rol(f, S[i]);
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d;
    }
    Bytes r;
    for (uint32_t x : h) { for (int i = 0; i < 32; i += 8) { r.push_back((uint8_t)(x >> i)); } }
    return r;
}

template<typename F>
Bytes ref_hmac(F h, const Bytes& key, const Bytes& data) {
    Bytes k = key.size() > 64 ? h(key) : key;
    k.resize(64);
    Bytes in, out;
    for (uint8_t x : k) { in.push_back(x ^ 0x36); out.push_back(x ^ 0x5c); }
    in.insert(in.end(), data.begin(), data.end());
    Bytes i = h(in);
    out.insert(out.end(), i.begin(), i.end());
    return h(out);
}

// The data in random parts, each in its own heap block.
struct Parts {
    std::vector<std::unique_ptr<vf::Exact>> blocks;
    std::vector<View> views;
    Parts(vf::Rng& r, const Bytes& d) {
        size_t o = 0;
        while (o < d.size() || r.chance(1, 4)) {
            size_t n = r.chance(1, 5) ? 0 : r.chance(1, 3) ? d.size() - o : r.below(d.size() - o + 1);
            if (n == 0 && r.coin()) { views.push_back(View(nullptr, 0)); continue; }
            blocks.push_back(std::make_unique<vf::Exact>(d.data() + o, n, r.below(3)));
            views.push_back(View(blocks.back()->data(), n));
            o += n;
        }
    }
};

size_t some_length(vf::Rng& r) {
    switch (r.below(5)) {
    case 0: return r.below(4);
    case 1: return (size_t)std::max<int64_t>(0, (int64_t)(64 * (1 + r.below(4))) + r.range(-10, 2));
    case 2: return r.below(1500);
    default: return r.below(200);
    }
}

template<typename V> Bytes to_bytes(const V& v) { return Bytes(v.begin(), v.end()); }

using Sha1 = crypto::SHA1Hash::Func;
using Md5 = crypto::MD5Hash::Func;

template<typename Func, typename Ref>
void keyed(vf::Ctx& c, const char* name, Func h, Ref ref, const Bytes& key, const Bytes& data) {
    vf::Exact k(key, c.rng.below(3));
    auto ipad = crypto::hmac::IPadKey::from_key(View(k.data(), k.size()), h);
    auto opad = crypto::hmac::OPadKey::from_key(View(k.data(), k.size()), h);
    CHECK(ipad.is_ok() && opad.is_ok(), "hmac.key", name << " key of " << key.size() << " bytes is refused");
    k.release();
    CHECK(ipad.unwrap().view().size() == 64 && opad.unwrap().view().size() == 64, "hmac.key", "size of padded key");
    Parts p(c.rng, data);
    auto d = crypto::hmac::digest(p.views, opad.unwrap(), ipad.unwrap(), h);
    CHECK(d.is_ok(), "hmac.error", name << " digest fails: " << d.unwrap_err().message());
    Bytes want = ref_hmac(ref, key, data);
    Bytes got = to_bytes(d.unwrap().value.view());
    CHECK(got == want, "hmac." + std::string(name), "key of " << key.size() << " bytes " << vf::hex(key) << ", data " << data.size() << " bytes in " << p.views.size() << " parts: " << vf::hex(got) << " instead of " << vf::hex(want));
    c.distinct(vf::Hash().add(key).add(data));
    EV("keyed hashes");
    if (key.size() > 64) { EV("keys longer than a block"); }
    if (p.views.size() > 1) { EV("data in parts"); }
}

}

// Every key length up to 1100 and every data length up to 2100 with random data.
GROUP("P09", "hmac", 6000, 400000) {
    Bytes key = c.rng.bytes(c.idx < 2200 ? c.idx / 2 : c.rng.chance(1, 6) ? c.rng.below(2000) : c.rng.below(140));
    Bytes data = c.rng.bytes(c.idx < 402 ? (c.idx * 7) % 201 : c.idx < 2500 ? c.idx - 400 : some_length(c.rng));
    keyed(c, "sha1", Sha1(crypto::openssl::sha1), ref_sha1, key, data);
    keyed(c, "md5", Md5(crypto::openssl::md5), ref_md5, key, data);
    // Second opinion on the oracle.
    unsigned n = 0;
    uint8_t out[EVP_MAX_MD_SIZE];
    uint8_t none = 0;
    HMAC(EVP_sha1(), key.empty() ? &none : key.data(), (int)key.size(), data.data(), data.size(), out, &n);
    CHECK(Bytes(out, out + n) == ref_hmac(ref_sha1, key, data), "model", "reference HMACs differ");
    c.sample("key " + std::to_string(key.size()) + " bytes, data " + std::to_string(data.size()) + " bytes, HMAC-SHA1 " + vf::hex(ref_hmac(ref_sha1, key, data)));
}

// Keys, data and numbers of parts around the limits of narrower integers.
GROUP("P09", "large", 60, 600) {
    static const size_t K[] = {255, 256, 257, 32767, 32768, 65535, 65536, 65537, 65556, 65600, 131072, 1000000};
    size_t n = K[c.idx % 12] + (c.idx < 12 ? 0 : c.rng.below(70));
    Bytes key = c.rng.bytes(c.idx % 3 ? n : c.rng.below(100)), data = c.rng.bytes(c.idx % 3 == 1 ? c.rng.below(100) : n);
    keyed(c, "sha1", Sha1(crypto::openssl::sha1), ref_sha1, key, data);
    keyed(c, "md5", Md5(crypto::openssl::md5), ref_md5, key, data);
    auto s = crypto::openssl::sha1({View(data.data(), data.size())}), t = crypto::openssl::sha1({View(key.data(), key.size()), View(data.data(), data.size()), View(key.data(), key.size())});
    CHECK(s.is_ok() && to_bytes(s.unwrap().view()) == ref_sha1(data), "hash.sha1", "SHA-1 of one view of " << data.size() << " bytes");
    Bytes three = key;
    three.insert(three.end(), data.begin(), data.end());
    three.insert(three.end(), key.begin(), key.end());
    CHECK(t.is_ok() && to_bytes(t.unwrap().view()) == ref_sha1(three), "hash.sha1", "SHA-1 of three views of " << three.size() << " bytes");
    // As many views, of a byte or none each.
    n = std::min<size_t>(n, 132000);
    Bytes d = c.rng.bytes(n);
    std::vector<View> v;
    Bytes kept;
    for (size_t i = 0; i < n; ++i) {
        if (c.rng.chance(1, 9)) { v.push_back(View(d.data() + i, 0)); } else { v.push_back(View(d.data() + i, 1)); kept.push_back(d[i]); }
    }
    auto a = crypto::openssl::sha1(v);
    auto m = crypto::openssl::md5(v);
    CHECK(a.is_ok() && to_bytes(a.unwrap().view()) == ref_sha1(kept), "hash.sha1", "SHA-1 of " << n << " views");
    CHECK(m.is_ok() && to_bytes(m.unwrap().view()) == ref_md5(kept), "hash.md5", "MD5 of " << n << " views");
    auto h = Sha1(crypto::openssl::sha1);
    auto i = crypto::hmac::IPadKey::from_key(View(key.data(), key.size()), h);
    auto o = crypto::hmac::OPadKey::from_key(View(key.data(), key.size()), h);
    auto dg = crypto::hmac::digest(v, o.unwrap(), i.unwrap(), h);
    CHECK(dg.is_ok() && to_bytes(dg.unwrap().value.view()) == ref_hmac(ref_sha1, key, kept), "hmac.sha1", "HMAC of " << n << " views");
    EV("large hashes");
    c.distinct(vf::Hash().add(key).add(data).add(n));
}

// A key and its hash are the same key only if the key is longer than a block.
GROUP("P09", "block boundary", 400, 4000) {
    size_t n = 60 + c.idx % 10;
    Bytes key = c.rng.bytes(n);
    for (size_t zeros = 0; zeros < 3; ++zeros) {
        Bytes k = key;
        k.insert(k.end(), zeros, 0);
        keyed(c, "sha1", Sha1(crypto::openssl::sha1), ref_sha1, k, c.rng.bytes(c.rng.below(80)));
    }
    auto h = Sha1(crypto::openssl::sha1);
    Bytes other = key;
    other[c.rng.below(n)] ^= (uint8_t)(1u << c.rng.below(8));
    auto a = crypto::hmac::IPadKey::from_key(View(key.data(), n), h), b = crypto::hmac::IPadKey::from_key(View(other.data(), n), h), a2 = crypto::hmac::IPadKey::from_key(View(key.data(), n), h);
    CHECK(a.unwrap() == a2.unwrap() && !(a.unwrap() == b.unwrap()), "hmac.key.equal", "equality of padded keys of " << n << " bytes");
}

GROUP("P09", "hash", 6000, 400000) {
    Bytes d = c.rng.bytes(c.idx < 2200 ? c.idx : some_length(c.rng));
    Parts p(c.rng, d), q(c.rng, d);
    auto s = crypto::openssl::sha1(p.views), s2 = crypto::openssl::sha1(q.views);
    auto m = crypto::openssl::md5(p.views);
    CHECK(s.is_ok() && s2.is_ok() && m.is_ok(), "hash.error", "hash of " << d.size() << " bytes fails");
    CHECK(to_bytes(s.unwrap().view()) == ref_sha1(d), "hash.sha1", "SHA-1 of " << vf::hex(d) << " is " << vf::hex(s.unwrap().value()));
    CHECK(to_bytes(m.unwrap().view()) == ref_md5(d), "hash.md5", "MD5 of " << vf::hex(d) << " is " << vf::hex(m.unwrap().value()));
    CHECK(s.unwrap() == s2.unwrap() && s.unwrap().value() == s2.unwrap().value(), "hash.parts", "SHA-1 depends on parts");
    // Value semantics.
    auto v = crypto::SHA1Hash::from_view(s.unwrap().view());
    CHECK(v.is_some() && v.unwrap() == s.unwrap(), "hash.from_view", "hash of its own view");
    Bytes w = to_bytes(s.unwrap().view());
    w[c.rng.below(20)] ^= (uint8_t)(1u << c.rng.below(8));
    CHECK(!(crypto::SHA1Hash::from_view(View(w.data(), 20)).unwrap() == s.unwrap()), "hash.equal", "different hashes are equal");
    size_t n = c.rng.below(64);
    Bytes x = c.rng.bytes(n);
    vf::Exact ex(x);
    CHECK(crypto::SHA1Hash::from_view(View(ex.data(), n)).is_some() == (n == 20) && crypto::MD5Hash::from_view(View(ex.data(), n)).is_some() == (n == 16) && crypto::SHA256Hash::from_view(View(ex.data(), n)).is_some() == (n == 32),
          "hash.size", "hash from " << n << " bytes");
    EV("hashes");
    c.distinct(vf::Hash().add(d));
}

// The hash function fails in its k-th call: the error comes out, never a digest.
GROUP("P09", "failing hash", 2000, 40000) {
    Bytes key = c.rng.bytes(c.rng.coin() ? c.rng.below(65) : 65 + c.rng.below(80)), data = c.rng.bytes(c.rng.below(100));
    unsigned calls = 0, bad = (unsigned)c.rng.below(5);
    auto err = std::make_error_code(c.rng.one_of<std::errc>({std::errc::not_enough_memory, std::errc::io_error, std::errc::invalid_argument}));
    Sha1 h = [&](const crypto::SHA1Hash::Input& in) -> crypto::SHA1Hash::Result {
        if (calls++ == bad) { return err; }
        return crypto::openssl::sha1(in);
    };
    bool failed = false;
    auto note = [&](auto& r) {
        bool now = !failed && calls > bad;
        failed = failed || now;
        CHECK(r.is_err() == now, "failure", "call " << bad << " of the hash failed, result is " << (r.is_ok() ? "a value" : "an error"));
        if (now) { CHECK(r.unwrap_err() == err, "failure.code", "error of the hash is replaced by " << r.unwrap_err().message()); EV("failures of the hash reported"); }
    };
    auto i = crypto::hmac::IPadKey::from_key(View(key.data(), key.size()), h);
    note(i);
    if (failed) { return; }
    auto o = crypto::hmac::OPadKey::from_key(View(key.data(), key.size()), h);
    note(o);
    if (failed) { return; }
    Parts p(c.rng, data);
    auto d = crypto::hmac::digest(p.views, o.unwrap(), i.unwrap(), h);
    note(d);
    if (!failed) { CHECK(to_bytes(d.unwrap().value.view()) == ref_hmac(ref_sha1, key, data), "failure.none", "digest is wrong"); }
    c.distinct(vf::Hash().add(key).add(data).add(bad));
}

// Allocations of OpenSSL fail: error or the right value.
GROUP("P09", "out of memory", 1000, 10000) {
    Bytes d = c.rng.bytes(some_length(c.rng));
    Parts p(c.rng, d);
    if (c.rng.coin()) { cryptofail::failing_allocations(c, "SHA-1", [&] { return crypto::openssl::sha1(p.views); }, [&](auto& r) { return to_bytes(r.unwrap().view()) == ref_sha1(d); }); }
    else { cryptofail::failing_allocations(c, "MD5", [&] { return crypto::openssl::md5(p.views); }, [&](auto& r) { return to_bytes(r.unwrap().view()) == ref_md5(d); }); }
    c.distinct(vf::Hash().add(d).add(c.idx));
}

// Any step of a digest fails.
GROUP("P09", "failing steps", 4000, 200000) {
    Bytes d = c.rng.bytes(some_length(c.rng));
    Parts p(c.rng, d);
    size_t steps = p.views.size() + 2;
    if (c.rng.coin()) { cryptofail::failing_steps(c, "SHA-1", steps, [&] { return crypto::openssl::sha1(p.views); }, [&](auto& r) { return to_bytes(r.unwrap().view()) == ref_sha1(d); }); }
    else { cryptofail::failing_steps(c, "MD5", steps, [&] { return crypto::openssl::md5(p.views); }, [&](auto& r) { return to_bytes(r.unwrap().view()) == ref_md5(d); }); }
    c.distinct(vf::Hash().add(d).add(c.idx));
}

// The algorithm is not available: error, not a digest.
GROUP("P09", "no algorithm", 40, 400) {
    Bytes d = c.rng.bytes(some_length(c.rng)), key = c.rng.bytes(c.rng.below(100));
    Parts p(c.rng, d);
    auto h = Sha1(crypto::openssl::sha1);
    auto i = crypto::hmac::IPadKey::from_key(View(key.data(), key.size()), h);
    auto o = crypto::hmac::OPadKey::from_key(View(key.data(), key.size()), h);
    CHECK(EVP_set_default_properties(nullptr, "provider=absent") == 1, "model", "properties of OpenSSL");
    auto r = crypto::openssl::sha1(p.views);
    auto m = crypto::openssl::md5(p.views);
    auto k = crypto::hmac::digest(p.views, o.unwrap(), i.unwrap(), h);
    CHECK(EVP_set_default_properties(nullptr, "") == 1, "model", "properties of OpenSSL");
    CHECK(r.is_err() && m.is_err() && k.is_err(), "absent", "hash that OpenSSL refuses to compute has a value");
    CHECK(!r.unwrap_err().message().empty(), "absent.message", "error has no message");
    EV("absent algorithm reported");
    c.distinct(vf::Hash().add(d).add(key));
}
