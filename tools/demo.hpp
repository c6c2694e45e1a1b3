// Helpers of the demonstrations.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <string>
#include <vector>
#define EXPECT(c) do { if (!(c)) { std::fprintf(stderr, "line %d: not true: %s\n", __LINE__, #c); std::exit(1); } } while (0)
#ifdef DEMO_STUN
#include "stun/stun_client_udp.hpp"
#include "stun/stun_server_stateless.hpp"
#include "stun/stun_error.hpp"
#include "stun/details/stun_fingerprint.hpp"
#include "crypto/openssl/openssl_hash.hpp"
using namespace freewebrtc;
using namespace std::chrono_literals;
using Bytes = std::vector<uint8_t>;
using Client = stun::ClientUDP;
using Timepoint = clock::Timepoint;
inline util::ConstBinaryView view(const Bytes& b) { return util::ConstBinaryView(b); }
inline net::ip::Address ip(const char* s) { return net::ip::Address::from_string(s).unwrap(); }
inline crypto::SHA1Hash::Func sha1() { return crypto::openssl::sha1; }
inline stun::IntegrityData integrity(const std::string& password) {
    return {stun::Password::short_term(precis::OpaqueString{password}, sha1()).unwrap(), sha1()};
}
inline void put16(Bytes& b, unsigned v) { b.push_back(uint8_t(v >> 8)); b.push_back(uint8_t(v)); }
// Message from raw attributes; the length is filled in.
struct Raw {
    Bytes b;
    explicit Raw(unsigned type, Bytes tid = Bytes(12, 7)) {
        put16(b, type); put16(b, 0); put16(b, 0x2112); put16(b, 0xA442);
        b.insert(b.end(), tid.begin(), tid.end());
    }
    Raw& attr(unsigned type, const Bytes& v) {
        put16(b, type); put16(b, (unsigned)v.size());
        b.insert(b.end(), v.begin(), v.end());
        while (b.size() % 4 != 0) { b.push_back(0); }
        return length();
    }
    Raw& length() { size_t n = b.size() - 20; b[2] = uint8_t(n >> 8); b[3] = uint8_t(n); return *this; }
    Raw& sign(const std::string& password) {
        // HMAC over the message with the length that includes the attribute
        Bytes m = b;
        size_t n = b.size() + 24 - 20;
        m[2] = uint8_t(n >> 8); m[3] = uint8_t(n);
        Bytes key(password.begin(), password.end());
        if (key.size() > 64) { auto h = crypto::openssl::sha1({view(key)}).unwrap(); key.assign(h.value().begin(), h.value().end()); }
        key.resize(64);
        Bytes i = key, o = key;
        for (auto& c : i) { c ^= 0x36; }
        for (auto& c : o) { c ^= 0x5c; }
        auto inner = crypto::openssl::sha1({view(i), view(m)}).unwrap();
        auto h = crypto::openssl::sha1({view(o), inner.view()}).unwrap();
        return attr(8, Bytes(h.value().begin(), h.value().end()));
    }
};
inline Bytes xor_mapped() { return {0, 1, 0x21 ^ 1, 0x12 ^ 2, 0x21 ^ 10, 0x12, 0xA4, 0x42 ^ 9}; }
inline Bytes error_value(unsigned code) { return {0, 0, uint8_t(code / 100), uint8_t(code % 100), 'x'}; }
inline Bytes tid_of(const util::ConstBinaryView& m) { return Bytes(m.begin() + 8, m.begin() + 20); }
inline std::random_device& device() { static std::random_device r; return r; }
inline Client::Request request(const char* target = "10.0.0.2", Maybe<Client::Auth> auth = None{}) {
    return Client::Request{.path = {ip("10.0.0.1"), ip(target)}, .maybe_auth = auth};
}
// Follows the client's own sleeps until something happens.
inline Client::Effect advance(Client& c, Timepoint& now) {
    while (true) {
        auto e = c.next(now);
        if (auto* s = std::get_if<Client::Sleep>(&e)) { now = now.advance(s->sleep); continue; }
        return e;
    }
}
inline bool is_send(const Client::Effect& e) { return std::holds_alternative<Client::SendData>(e); }
inline bool is_ok(const Client::Effect& e) { return std::holds_alternative<Client::TransactionOk>(e); }
inline bool is_failed(const Client::Effect& e) { return std::holds_alternative<Client::TransactionFailed>(e); }
#endif
