// Servers with users, and packets for them.
#pragma once
#include "stunlib.hpp"
#include "stun/stun_server_stateless.hpp"

namespace servergen {

using namespace lib;
using Server = stun::server::Stateless;

struct User { Bytes name, key; };

struct World {
    std::vector<User> users;
    bool fingerprint = true, use_default = false;
    const User* find(const Bytes& name) const {
        for (auto& u : users) { if (u.name == name) { return &u; } }
        return nullptr;
    }
    std::unique_ptr<Server> server(crypto::SHA1Hash::Func h = crypto::openssl::sha1) const {
        Maybe<Server::Settings> st = None{};
        if (!use_default) { st = Server::Settings{.use_fingerprint = fingerprint}; }
        auto s = std::make_unique<Server>(h, st);
        for (auto& u : users) { s->add_user(precis::OpaqueString{std::string(u.name.begin(), u.name.end())}, password(u.key)); }
        return s;
    }
};

inline World random_world(Rng& r) {
    World w;
    unsigned n = (unsigned)r.below(5);
    Bytes base = r.bytes(r.below(12));
    while (w.users.size() < n) {
        User u;
        u.name = base;
        switch (r.below(4)) { // names are close to each other
        case 0: u.name = r.bytes(r.below(20)); break;
        case 1: u.name.push_back(r.u8()); break;
        case 2: if (!u.name.empty()) { u.name.pop_back(); } break;
        default: if (!u.name.empty()) { u.name[r.below(u.name.size())] ^= 0x20; } break;
        }
        u.key = r.bytes(r.one_of<size_t>({0, 1, 8, 20, 22, 63, 64, 65, 90}));
        if (!w.find(u.name)) { w.users.push_back(u); }
    }
    w.use_default = r.chance(1, 3);
    w.fingerprint = w.use_default || r.coin();
    return w;
}

// Requests of all sorts that a server can meet.
inline Bytes random_packet(Rng& r, const World& w) {
    if (r.chance(1, 8)) {
        Bytes p = ref::random_message(r).packet;
        if (r.coin()) { ref::mutate(r, p); if (r.coin()) { ref::refresh_fingerprint(p); } }
        return p;
    }
    bool old = r.chance(1, 6);
    Bytes tid = old ? r.bytes(16) : ref::random_tid(r);
    if (old && ref::get32(tid.data()) == ref::COOKIE) { tid[0] ^= 1; }
    unsigned cls = r.chance(1, 12) && !old ? (unsigned)r.below(4) : 0;
    unsigned method = r.chance(1, 10) ? (unsigned)r.below(4096) : 1;
    ref::Enc e(ref::msg_type(cls, method), tid);
    auto noise = [&] {
        while (r.chance(1, 3)) {
            uint16_t t;
            do { t = r.chance(1, 3) ? ref::random_unknown_type(r) | (r.chance(3, 4) ? 0x8000 : 0) : r.pick(ref::known_types()); } while (t == ref::A_INTEGRITY || t == ref::A_FINGERPRINT || t == ref::A_USERNAME);
            e.attr(t, ref::random_value(r, t, tid), r.coin() ? 0 : r.u8());
        }
    };
    noise();
    const User* u = w.users.empty() ? nullptr : &r.pick(w.users);
    bool name = r.chance(2, 3), mac = name ? r.chance(7, 8) : r.chance(1, 8);
    if (name) {
        Bytes n = u && r.chance(7, 8) ? u->name : r.bytes(r.below(12));
        if (r.chance(1, 10) && !n.empty()) { n[r.below(n.size())] ^= (uint8_t)(1u << r.below(8)); }
        if (r.chance(1, 12)) { n.push_back(0); }
        e.attr(ref::A_USERNAME, n);
        if (r.chance(1, 10)) { e.attr(ref::A_USERNAME, w.users.empty() ? r.bytes(4) : r.pick(w.users).name); } // the first one counts
    }
    noise();
    size_t signed_at = 0;
    if (mac) {
        signed_at = e.size();
        Bytes key = u ? u->key : r.bytes(8);
        if (r.chance(1, 6)) { key = w.users.empty() ? r.bytes(3) : r.pick(w.users).key; }
        if (r.chance(1, 10) && !key.empty()) { key[r.below(key.size())] ^= (uint8_t)(1u << r.below(8)); }
        if (r.chance(1, 16)) { key.clear(); }
        e.integrity(key);
        if (r.chance(1, 10)) { // after the integrity everything is ignored
            if (r.coin() && u) { e.attr(ref::A_USERNAME, u->name); }
            if (r.coin()) { e.attr(ref::random_unknown_type(r) & 0x7fff, r.bytes(r.below(9))); }
            if (r.coin()) { e.integrity(u ? u->key : Bytes()); }
        }
    }
    if (r.coin()) { e.fingerprint(); }
    Bytes p = e.bytes();
    if (signed_at && r.chance(1, 6)) { // a change after signing
        p[r.chance(1, 3) ? signed_at + 4 + r.below(20) : r.below(signed_at)] ^= (uint8_t)(1u << r.below(8));
        ref::refresh_fingerprint(p);
    }
    if (r.chance(1, 30)) { p[2] ^= 1; }
    return p;
}

}
