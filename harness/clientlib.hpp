// The STUN client driven in virtual time, everything it does recorded; and an
// independent classification of responses.
#pragma once
#include "stunlib.hpp"
#include "stun/stun_client_udp.hpp"
#include "stun/stun_transaction_id_hash.hpp"

namespace cl {

using namespace lib;
using Client = stun::ClientUDP;
using Timepoint = clock::Timepoint;
using us = int64_t;

inline Timepoint at(uint64_t base, us t) { return Timepoint::epoch().advance(std::chrono::duration<uint64_t, std::micro>(base + (uint64_t)t)); }
inline Timepoint::Duration dur(us t) { return Timepoint::Duration(t); }

// Random words; can be told what to deliver.
struct Words {
    Rng rng;
    std::vector<uint32_t> next;  // delivered first
    std::vector<uint32_t> given; // since the last reset
    size_t pos = 0;
    explicit Words(uint64_t s = 1) : rng(s) { // an identifier may be all zeros, as well
        vf::Rng x(s ^ 0x69646e74);
        if (x.chance(1, 5)) { for (size_t n = 3 * x.below(4); n--;) { next.push_back(x.u32()); } next.insert(next.end(), 3, x.one_of<uint32_t>({0, 0xffffffff, 0x80808080, 0x20202020})); }
    }
    uint32_t operator()() {
        uint32_t v = pos < next.size() ? next[pos++] : rng.u32();
        given.push_back(v);
        return v;
    }
    // Id made of the last three words.
    Bytes last_id() const {
        Bytes b(12);
        std::memcpy(b.data(), &given[given.size() - 3], 12);
        return b;
    }
};

enum Kind { K_OK, K_UNKNOWN_REQUIRED, K_UNKNOWN_REPORTED, K_ALTERNATE, K_CODE, K_ERROR, K_TIMEOUT, K_NONE };
inline const char* kind_name(Kind k) { static const char* n[] = {"success", "unknown attributes in response", "unknown attributes reported", "alternate server", "error code", "error", "timeout", "none"}; return n[k]; }

struct Outcome {
    Kind kind = K_NONE;
    ref::Addr addr;            // success, alternate server
    std::vector<uint16_t> list; // attributes
    unsigned code = 0;
    Bytes phrase;
    std::error_code ec;
    std::string text; // of the error
    uint64_t response = 0;     // hash of the response message
    us rtt = -1;               // not known
    // Equal in all that the response determines.
    bool same(const Outcome& o) const { return kind == o.kind && addr == o.addr && list == o.list && code == o.code && phrase == o.phrase && ec == o.ec; }
    uint64_t hash() const {
        vf::Hash h;
        h.add(kind).add(addr.ip).add(addr.port).add(code).add(phrase).add(text).add(response).add((uint64_t)rtt);
        for (auto t : list) { h.add(t); }
        return h.get();
    }
    std::string show() const {
        std::ostringstream o;
        o << kind_name(kind);
        if (kind == K_OK || kind == K_ALTERNATE) { o << " " << lib::show(addr); }
        if (kind == K_CODE) { o << " " << code << " '" << vf::hex(phrase) << "'"; }
        if (kind == K_ERROR) { o << " " << text; }
        for (auto t : list) { o << " " << t; }
        if (kind == K_OK) { o << " rtt " << rtt; }
        return o.str();
    }
};

struct Ev { // what the client said
    enum Type { SEND, OUTCOME, SLEEP, IDLE } type;
    us t;
    unsigned handle;
    uint64_t hash = 0;  // of data or outcome
    Outcome outcome;
    us sleep = 0;
    const uint8_t* data = nullptr; // SEND: as handed out
    size_t size = 0;
    bool operator==(const Ev& o) const { return type == o.type && t == o.t && handle == o.handle && hash == o.hash; }
    std::string show() const {
        std::ostringstream s;
        s << "t=" << t << " ";
        if (type == SEND) { s << "send #" << handle << " (" << size << " bytes)"; }
        if (type == OUTCOME) { s << "outcome #" << handle << " " << outcome.show(); }
        if (type == SLEEP) { s << "sleep " << sleep; }
        if (type == IDLE) { s << "idle"; }
        return s.str();
    }
};

inline Outcome outcome_of(const Client::TransactionOk& ok) {
    Outcome o;
    o.kind = K_OK;
    o.addr = addr(ok.result);
    o.response = digest(ok.response);
    if (ok.round_trip.is_some()) { o.rtt = ok.round_trip.unwrap().count(); }
    return o;
}
inline Outcome outcome_of(const Client::TransactionFailed& f) {
    using F = Client::TransactionFailed;
    Outcome o;
    if (auto* x = std::get_if<F::UnknownComprehensionRequiredAttribute>(&f.reason)) { o.kind = K_UNKNOWN_REQUIRED; o.list = types(x->attrs); }
    else if (auto* x = std::get_if<F::UnknownAttributeReported>(&f.reason)) { o.kind = K_UNKNOWN_REPORTED; o.list = types(x->attrs); }
    else if (auto* x = std::get_if<F::AlternateServer>(&f.reason)) { o.kind = K_ALTERNATE; o.addr = addr(x->server); }
    else if (auto* x = std::get_if<F::ErrorCode>(&f.reason)) { o.kind = K_CODE; o.code = x->attr.code; if (x->attr.reason_phrase.is_some()) { o.phrase = ref::bytes_of(x->attr.reason_phrase.unwrap()); } }
    else if (auto* x = std::get_if<F::Error>(&f.reason)) {
        o.kind = K_ERROR;
        o.text = x->code.message();
        for (auto e : {stun::ClientError::no_address_in_response, stun::ClientError::no_error_code_in_response, stun::ClientError::no_alternate_server_in_response}) {
            if (x->code == stun::make_error_code(e)) { o.ec = stun::make_error_code(e); }
        }
    }
    else { o.kind = K_TIMEOUT; }
    return o;
}

struct Settings {
    bool fingerprint = true;
    unsigned rc = 7, rm = 16;
    us rto = 500000;
    us max_rto = 0;      // 0: none
    us server_error = -1; // -1: none
    unsigned server_error_max = 4;
    us history = 3600ll * 1000000;
    bool allow_alternate = false;
    stun::TransactionIdHash (*hash)() = nullptr;
    Client::Settings get() const {
        Client::Settings s{.maybe_tid_hash = hash ? Maybe<stun::TransactionIdHash>{hash()} : Maybe<stun::TransactionIdHash>{None{}}};
        // What is as documented is left alone: the defaults are observed as well.
        if (!fingerprint) { s.use_fingerprint = Client::Settings::UseFingerprint{false}; }
        Client::Settings::RetransmitDefault r;
        if (max_rto > 0) { r.max_rto = dur(max_rto); }
        if (rc != 7) { r.request_count = rc; }
        if (rm != 16) { r.retransmission_multiplier = rm; }
        if (server_error >= 0) { r.server_error_timeout = dur(server_error); }
        if (server_error_max != 4) { r.server_error_max_retransmits = server_error_max; }
        if (max_rto > 0 || rc != 7 || rm != 16 || server_error >= 0 || server_error_max != 4) { s.retransmit = r; }
        if (rto != 500000) { s.rto_settings.initial_rto = dur(rto); }
        if (history != 3600ll * 1000000) { s.rto_settings.history_duration = dur(history); }
        if (allow_alternate) { s.allow_unauthenticated_alternate = true; }
        return s;
    }
};

struct PathSpec { Bytes source, target; bool operator==(const PathSpec&) const = default; bool operator<(const PathSpec& o) const { return std::tie(source, target) < std::tie(o.source, o.target); } };
inline net::Path path(const PathSpec& p) { return net::Path{address(p.source), address(p.target)}; }

struct TxSpec {
    PathSpec path{{127, 0, 0, 1}, {127, 0, 0, 2}};
    bool auth = false;
    Bytes name, key;
    std::vector<stun::Attribute::Value> attrs;
    std::vector<stun::UnknownAttribute> unknown;
    crypto::SHA1Hash::Func hash = crypto::openssl::sha1;
};

struct Txn {
    unsigned handle = 0;
    Bytes tid;
    us created = 0;
    TxSpec spec;
    std::vector<us> sends;
    Bytes data;           // of the first transmission
    Outcome outcome;      // reported
    us ended = -1;
    unsigned outcomes = 0;
    bool live() const { return ended < 0; }
};

// One client. Time is in microseconds since `base`.
class Driver {
public:
    Driver(const Settings& s, uint64_t base, uint64_t word_seed) : settings(s), words(word_seed), m_base(base), m_client(std::make_unique<Client>(s.get())) {}
    us now = 0;
    Settings settings;
    Words words;
    std::vector<Txn> txns;
    std::vector<Ev> trace; // sends and outcomes
    std::map<unsigned, size_t> by_handle; // latest transaction of the handle
    std::string broken;    // first violation of the basic protocol between client and its user
    Ev last{Ev::IDLE, 0, 0};
    uint64_t polls = 0;

    // Index of the transaction or -1.
    int create(const TxSpec& spec) {
        Client::Request rq{path(spec.path), spec.attrs, spec.unknown};
        if (spec.auth) { rq.maybe_auth = Client::Auth{precis::OpaqueString{std::string(spec.name.begin(), spec.name.end())}, stun::IntegrityData{password(spec.key), spec.hash}}; }
        words.given.clear();
        auto r = m_client->create(words, at(m_base, now), std::move(rq));
        if (r.is_err()) { create_error = r.unwrap_err().message(); return -1; }
        Txn t;
        t.handle = r.unwrap().value;
        t.tid = words.last_id();
        t.created = now;
        t.spec = spec;
        auto it = by_handle.find(t.handle);
        if (it != by_handle.end() && txns[it->second].live()) { note("handle " + std::to_string(t.handle) + " is given to two live transactions"); }
        by_handle[t.handle] = txns.size();
        txns.push_back(std::move(t));
        return (int)txns.size() - 1;
    }
    std::string create_error;

    // Single call of next(). Sends and outcomes are recorded.
    Ev step() {
        auto e = m_client->next(at(m_base, now));
        ++polls;
        Ev v{Ev::IDLE, now, 0};
        if (auto* s = std::get_if<Client::SendData>(&e)) {
            v.type = Ev::SEND;
            v.handle = s->handle.value;
            v.data = s->message_view.data();
            v.size = s->message_view.size();
            v.hash = vf::Hash().add(v.data, v.size).get();
            auto it = by_handle.find(v.handle);
            if (it == by_handle.end()) { note("data is sent for unknown handle"); }
            else {
                Txn& t = txns[it->second];
                if (!t.live()) { note("data is sent after the outcome of #" + std::to_string(v.handle)); }
                if (t.sends.empty()) { t.data.assign(v.data, v.data + v.size); }
                t.sends.push_back(now);
            }
            trace.push_back(v);
        } else if (auto* ok = std::get_if<Client::TransactionOk>(&e)) {
            v.type = Ev::OUTCOME; v.handle = ok->handle.value; v.outcome = outcome_of(*ok);
            finish(v);
        } else if (auto* f = std::get_if<Client::TransactionFailed>(&e)) {
            v.type = Ev::OUTCOME; v.handle = f->handle.value; v.outcome = outcome_of(*f);
            finish(v);
        } else if (auto* s = std::get_if<Client::Sleep>(&e)) {
            v.type = Ev::SLEEP; v.sleep = s->sleep.count();
        }
        last = v;
        return v;
    }
    // Until the client has nothing to do at this time.
    std::vector<Ev> poll() {
        std::vector<Ev> r;
        for (unsigned n = 0;; ++n) {
            Ev e = step();
            if (e.type == Ev::SLEEP || e.type == Ev::IDLE) { return r; }
            r.push_back(e);
            if (n > 100000) { note("the client never stops at one point of time"); return r; }
        }
    }
    // The error, or empty.
    Maybe<Error> respond(const Bytes& p, bool parsed = false) {
        vf::Exact x(p);
        Maybe<stun::Message> m = None{};
        if (parsed) {
            stun::ParseStat st;
            auto r = stun::Message::parse(view(x), st);
            if (r.is_ok()) { m = std::move(r.unwrap()); }
        }
        auto r = m_client->response(at(m_base, now), view(x), std::move(m));
        x.release();
        if (r.is_err()) { return Maybe<Error>(r.unwrap_err()); }
        return none();
    }
    // Drives by the sleeps of the client until it is idle (or limits).
    bool drain(unsigned max_steps = 20000) {
        while (max_steps--) {
            poll();
            if (last.type == Ev::IDLE) { return true; }
            if (last.sleep <= 0) { note("sleep of " + std::to_string(last.sleep)); return false; }
            now += last.sleep;
        }
        return false;
    }
    unsigned live() const { unsigned n = 0; for (auto& t : txns) { n += t.live(); } return n; }
    void destroy() { m_client.reset(); }
    Client& client() { return *m_client; }
    Timepoint time() const { return at(m_base, now); }
    std::string show_trace(size_t max = 60) const {
        std::string s;
        for (size_t i = trace.size() > max ? trace.size() - max : 0; i < trace.size(); ++i) { s += trace[i].show() + "; "; }
        return s;
    }
    void note(const std::string& s) { if (broken.empty()) { broken = "t=" + std::to_string(now) + ": " + s; } }
private:
    void finish(Ev& v) {
        v.hash = v.outcome.hash();
        auto it = by_handle.find(v.handle);
        if (it == by_handle.end()) { note("outcome of unknown handle"); }
        else {
            Txn& t = txns[it->second];
            ++t.outcomes;
            if (!t.live()) { note("second outcome of #" + std::to_string(v.handle)); }
            else { t.ended = now; t.outcome = v.outcome; }
        }
        trace.push_back(v);
    }
    uint64_t m_base;
    std::unique_ptr<Client> m_client;
};

// What a response does, decided from its bytes.
struct Verdict {
    enum { ERROR, NOTHING, FINAL, RETRY } type = NOTHING;
    bool unspecified = false;
    std::error_code ec;   // ERROR; empty: parse error
    Outcome outcome;      // FINAL; rtt is not filled in
    int txn = -1;
    uint64_t sent_digest = 0;
    unsigned code = 0;    // of an error response
};

// `live[i]`: outcome of transaction i is not determined yet.
inline Verdict classify(const Bytes& p, const std::vector<Txn>& txns, const std::vector<bool>& live, const Settings& s) {
    Verdict v;
    ref::Decoded d = ref::decode(p);
    if (d.lenient) { v.unspecified = true; return v; }
    if (!d.ok) { v.type = Verdict::ERROR; return v; }
    auto error = [&](stun::ClientError e) { v.type = Verdict::ERROR; v.ec = stun::make_error_code(e); return v; };
    for (size_t i = 0; i < txns.size(); ++i) { if (live[i] && txns[i].tid == d.tid) { v.txn = (int)i; } }
    if (v.txn < 0) { return error(stun::ClientError::transaction_not_found); }
    const Txn& t = txns[v.txn];
    bool alternate = d.cls() == 3 && d.has(ref::A_ERROR) && d.error_code() == 300;
    if (t.spec.auth) {
        if (!d.has(ref::A_INTEGRITY)) {
            if (!(s.allow_alternate && alternate)) { return error(stun::ClientError::no_integrity_attribute_in_response); }
        } else if (!d.signed_by(p, t.spec.key)) { return error(stun::ClientError::digest_is_not_valid); }
    }
    if (d.cls() < 2) { return v; }
    v.type = Verdict::FINAL;
    auto& o = v.outcome;
    auto unknown = d.required_unknown();
    if (!unknown.empty()) { o.kind = K_UNKNOWN_REQUIRED; o.list = unknown; return v; }
    auto fail = [&](stun::ClientError e) { o.kind = K_ERROR; o.ec = stun::make_error_code(e); o.text = o.ec.message(); return v; };
    if (d.cls() == 2) {
        o.kind = K_OK;
        if (d.has(ref::A_XOR)) { o.addr = ref::xored(ref::Decoded::addr(d.known[ref::A_XOR]), d.tid); }
        else if (d.has(ref::A_MAPPED)) { o.addr = ref::Decoded::addr(d.known[ref::A_MAPPED]); }
        else { return fail(stun::ClientError::no_address_in_response); }
        return v;
    }
    if (!d.has(ref::A_ERROR)) { return fail(stun::ClientError::no_error_code_in_response); }
    v.code = d.error_code();
    if (v.code == 300) {
        if (!d.has(ref::A_ALTERNATE)) { return fail(stun::ClientError::no_alternate_server_in_response); }
        o.kind = K_ALTERNATE;
        o.addr = ref::Decoded::addr(d.known[ref::A_ALTERNATE]);
        return v;
    }
    o.kind = K_CODE;
    o.code = v.code;
    auto& e = d.known[ref::A_ERROR];
    o.phrase.assign(e.begin() + 4, e.end());
    if (v.code == 420 && d.has(ref::A_UNKNOWN)) {
        o = Outcome{};
        o.kind = K_UNKNOWN_REPORTED;
        auto& u = d.known[ref::A_UNKNOWN];
        for (size_t i = 0; i + 1 < u.size(); i += 2) { o.list.push_back((uint16_t)ref::get16(&u[i])); }
        return v;
    }
    switch (v.code / 100) {
    case 3: case 4: return v;
    case 5: v.type = s.server_error >= 0 ? Verdict::RETRY : Verdict::FINAL; return v;
    default: v.type = Verdict::NOTHING; return v;
    }
}

// ---- responses to make

struct Reply {
    unsigned cls = 2;
    unsigned method = 1;
    Bytes tid;
    std::vector<std::pair<uint16_t, Bytes>> attrs;
    bool sign = false;
    Bytes key;
    std::vector<std::pair<uint16_t, Bytes>> after; // after the integrity
    bool fingerprint = false;
    Bytes bytes() const {
        ref::Enc e(ref::msg_type(cls, method), tid);
        for (auto& [t, v] : attrs) { e.attr(t, v); }
        if (sign) { e.integrity(key); }
        for (auto& [t, v] : after) { e.attr(t, v); }
        if (fingerprint) { e.fingerprint(); }
        return e.bytes();
    }
};

inline Bytes error_value(unsigned code, const Bytes& phrase = {}) {
    Bytes b{0, 0, (uint8_t)(code / 100), (uint8_t)(code % 100)};
    b.insert(b.end(), phrase.begin(), phrase.end());
    return b;
}
inline Reply success_reply(const Txn& t, const ref::Addr& a) {
    Reply r;
    r.tid = t.tid;
    r.attrs.emplace_back(ref::A_XOR, ref::addr_value(ref::xored(a, t.tid)));
    r.sign = t.spec.auth;
    r.key = t.spec.key;
    return r;
}
inline Reply error_reply(const Txn& t, unsigned code) {
    Reply r;
    r.cls = 3;
    r.tid = t.tid;
    r.attrs.emplace_back(ref::A_ERROR, error_value(code));
    r.sign = t.spec.auth;
    r.key = t.spec.key;
    return r;
}

// Random reply, signed as the transaction wants.
inline Reply random_reply(Rng& r, const Txn& t, bool allow_5xx = true) {
    Reply p;
    p.tid = t.tid;
    p.sign = t.spec.auth;
    p.key = t.spec.key;
    p.fingerprint = r.coin();
    p.method = r.chance(1, 20) ? (unsigned)r.below(4096) : 1;
    auto maybe = [&](uint16_t type, unsigned num, unsigned den) { if (r.chance(num, den)) { p.attrs.emplace_back(type, ref::random_value(r, type, t.tid)); } };
    auto extra = [&] {
        while (r.chance(1, 4)) { uint16_t u = ref::random_unknown_type(r) | 0x8000; if (!ref::is_known(u)) { p.attrs.emplace_back(u, r.bytes(r.below(12))); } }
        while (r.chance(1, 12)) { uint16_t u = ref::random_unknown_type(r) & 0x7fff; if (!ref::is_known(u)) { p.attrs.emplace_back(u, r.bytes(r.below(12))); } }
    };
    switch (r.below(8)) {
    case 0: // not a response
        p.cls = (unsigned)r.below(2);
        maybe(ref::A_XOR, 1, 2);
        break;
    case 1: case 2: case 3: case 4: // success
        p.cls = 2;
        extra();
        if (r.chance(1, 4)) { p.attrs.emplace_back(ref::A_MAPPED, ref::addr_value(ref::random_addr(r))); }
        if (r.chance(7, 8)) { p.attrs.emplace_back(ref::A_XOR, ref::addr_value(ref::xored(ref::random_addr(r), t.tid))); }
        maybe(ref::A_MAPPED, 1, 4);
        maybe(ref::A_XOR, 1, 10); // second one
        maybe(ref::A_SOFTWARE, 1, 3);
        maybe(ref::A_ERROR, 1, 10);
        extra();
        break;
    default: { // error
        p.cls = 3;
        extra();
        unsigned code = r.chance(1, 3) ? r.one_of<unsigned>({300, 420, 400, 401, 438, 500, 301}) : r.chance(1, 6) ? (unsigned)r.below(800) : (unsigned)r.range(300, 599);
        if (!allow_5xx && code / 100 == 5) { code -= 100; }
        maybe(ref::A_ALTERNATE, code == 300 ? 3 : 1, 4);
        if (r.chance(9, 10)) { p.attrs.emplace_back(ref::A_ERROR, error_value(code, r.coin() ? Bytes() : r.bytes(r.below(20)))); }
        maybe(ref::A_UNKNOWN, code == 420 ? 3 : 1, 4);
        maybe(ref::A_XOR, 1, 5);
        if (r.chance(1, 6)) { p.attrs.emplace_back(ref::A_ERROR, error_value((unsigned)r.range(300, 499))); }
        extra();
    }
    }
    if (r.chance(1, 8)) { // what follows the integrity does not count
        p.after.emplace_back(r.coin() ? ref::A_XOR : ref::A_ERROR, ref::random_value(r, r.coin() ? ref::A_XOR : ref::A_MAPPED, t.tid));
        if (r.coin()) { p.after.emplace_back(0x7ff0, r.bytes(4)); }
        if (!p.sign) { p.after.clear(); }
    }
    return p;
}

inline uint64_t random_base(Rng& r) {
    switch (r.below(5)) {
    case 0: return 0;
    case 1: return 0 - (uint64_t)r.below(100000000);       // wraps soon
    case 2: return (1ull << 63) - r.below(100000000);       // sign changes soon
    default: return r.u64();
    }
}
inline PathSpec random_path(Rng& r, unsigned hosts = 6) {
    auto host = [&] {
        unsigned k = (unsigned)r.below(hosts);
        if (k % 2) { return Bytes{10, 0, 0, (uint8_t)k}; }
        Bytes b(16, 0); b[0] = 0xfd; b[15] = (uint8_t)k; return b;
    };
    return PathSpec{host(), host()};
}
inline void random_auth(Rng& r, TxSpec& t, unsigned num = 1, unsigned den = 2) {
    t.auth = r.chance(num, den);
    if (t.auth) { t.name = r.bytes(r.below(20)); t.key = r.bytes(r.one_of<size_t>({0, 1, 8, 22, 63, 64, 65, 100})); }
}

// A success that may have anything in it besides an address.
inline Reply any_success(Rng& r, const Txn& t) {
    Reply p = success_reply(t, ref::random_addr(r));
    auto optional = [&] { while (r.chance(1, 4)) { uint16_t u = ref::random_unknown_type(r) | 0x8000; if (!ref::is_known(u)) { p.attrs.emplace_back(u, r.bytes(r.below(12))); } } };
    switch (r.below(6)) {
    case 0: p.attrs.clear(); optional(); p.attrs.emplace_back(ref::A_MAPPED, ref::addr_value(ref::random_addr(r))); break;
    case 1: p.attrs.insert(p.attrs.begin(), {ref::A_MAPPED, ref::addr_value(ref::random_addr(r))}); break;
    case 2: p.attrs.emplace_back(ref::A_MAPPED, ref::addr_value(ref::random_addr(r))); break;
    default: break;
    }
    if (r.chance(1, 4)) { p.attrs.emplace_back(ref::A_SOFTWARE, r.bytes(r.below(20))); }
    if (r.chance(1, 8)) { p.attrs.emplace_back(ref::A_USERNAME, r.bytes(r.below(20))); }
    if (r.chance(1, 8)) { p.attrs.emplace_back(ref::A_PRIORITY, r.bytes(4)); }
    optional();
    p.fingerprint = r.coin();
    return p;
}

// What a client has been through when the next response comes: transmissions, server
// errors that were put off, responses that were refused or had no effect. All
// transactions are live afterwards (of 7 requests up to 5 were sent).
inline void random_past(Rng& r, Driver& d) {
    unsigned waits = 0, steps = (unsigned)r.below(8);
    while (steps-- && !d.txns.empty()) {
        const Txn& t = d.txns[r.below(d.txns.size())];
        switch (r.below(5)) {
        case 0: case 1:
            if (waits++ < 4 && d.last.type == Ev::SLEEP) { d.now += d.last.sleep; d.poll(); EV("past: transmissions"); }
            break;
        case 2:
            if (d.settings.server_error >= 0) { d.respond(error_reply(t, 500 + (unsigned)r.below(100)).bytes(), r.coin()); if (r.coin()) { d.poll(); } EV("past: server errors"); }
            break;
        case 3: {
            Reply rep = any_success(r, t);
            rep.tid = r.bytes(12);
            d.respond(rep.bytes());
            EV("past: responses to others");
            break;
        }
        default:
            if (t.spec.auth) {
                Reply rep = any_success(r, t);
                if (r.coin()) { rep.sign = false; } else { rep.key.push_back(1); }
                d.respond(rep.bytes());
                EV("past: forged responses");
            } else {
                Reply rep = any_success(r, t);
                rep.cls = (unsigned)r.below(2);
                d.respond(rep.bytes());
                EV("past: no responses");
            }
        }
    }
    d.poll();
}

// When an unanswered transaction sends and when it times out.
struct Schedule {
    Settings s;
    us rto;
    unsigned sent = 1; // first one at creation
    us due;
    bool over = false;
    unsigned count() const { return std::max(1u, s.rc); }
    us wait(unsigned k) const { // after transmission k = 1, 2, ...
        __int128 w = k >= count() ? (__int128)rto * s.rm : rto;
        static const __int128 LIMIT = std::numeric_limits<us>::max() / 2; // what a time can represent
        for (unsigned i = 1; k < count() && i < k && w < LIMIT; ++i) { w *= 2; }
        return (us)std::min(w, s.max_rto > 0 ? (__int128)s.max_rto : LIMIT);
    }
    Schedule(const Settings& st, us created, us r) : s(st), rto(r) { due = created + wait(1); }
    // Poll at t: 0 nothing, 1 sends, 2 times out.
    int poll(us t) {
        if (over || t < due) { return 0; }
        if (sent >= count()) { over = true; return 2; }
        ++sent;
        due = t + wait(sent);
        return 1;
    }
};

}
