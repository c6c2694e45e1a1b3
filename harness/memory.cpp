// P43: long-lived objects do not accumulate memory, destroyed ones give everything back.
//
// Every allocation made while the library runs is counted, whoever frees it: operator
// new of the whole program and the allocator of OpenSSL are replaced.
#include "workout.hpp"
#include <openssl/crypto.h>

namespace mem {

bool inside = false; // the library is running
long blocks = 0, bytes = 0, peak = 0;
unsigned long total = 0;
bool hooks = false;

struct alignas(16) Head { size_t size; uint32_t counted; uint32_t magic; };

void* take(size_t n) noexcept {
    auto* h = (Head*)std::malloc(n + sizeof(Head));
    if (h == nullptr) { return nullptr; }
    *h = Head{n, inside, 0x5ca1ab1e};
    if (inside) { ++blocks; ++total; bytes += (long)n; if (bytes > peak) { peak = bytes; } }
    return h + 1;
}
void give(void* p) noexcept {
    if (p == nullptr) { return; }
    auto* h = (Head*)p - 1;
    if (h->magic != 0x5ca1ab1e) { std::fprintf(stderr, "freed block was not allocated\n"); std::abort(); }
    if (h->counted) { --blocks; bytes -= (long)h->size; }
    h->magic = 0;
    std::free(h);
}
void* ssl_malloc(size_t n, const char*, int) { return n == 0 ? nullptr : take(n); }
void ssl_free(void* p, const char*, int) { give(p); }
void* ssl_realloc(void* p, size_t n, const char*, int) {
    if (n == 0) { give(p); return nullptr; }
    void* q = take(n);
    if (q && p) { std::memcpy(q, p, std::min(n, ((Head*)p - 1)->size)); give(p); }
    return q;
}
struct Install { Install() { hooks = CRYPTO_set_mem_functions(ssl_malloc, ssl_realloc, ssl_free) == 1; } } install;

struct In {
    bool was = inside;
    In() { inside = true; }
    ~In() { inside = was; }
    In(const In&) = delete;
};
struct Out {
    bool was = inside;
    Out() { inside = false; }
    ~Out() { inside = was; }
    Out(const Out&) = delete;
};
struct State {
    long blocks = mem::blocks, bytes = mem::bytes;
    bool operator==(const State&) const = default;
    std::string show() const { return std::to_string(blocks) + " blocks, " + std::to_string(bytes) + " bytes"; }
};

}

void* operator new(size_t n) { void* p = mem::take(n); if (!p) { throw std::bad_alloc(); } return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return mem::take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return mem::take(n); }
void operator delete(void* p) noexcept { mem::give(p); }
void operator delete[](void* p) noexcept { mem::give(p); }
void operator delete(void* p, size_t) noexcept { mem::give(p); }
void operator delete[](void* p, size_t) noexcept { mem::give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mem::give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mem::give(p); }

namespace {

using namespace cl;
using mem::In;
using mem::Out;

// A client with as little around it as possible.
struct Mini {
    struct Tx { unsigned handle; Txn t; };
    explicit Mini(const Settings& s, uint64_t base, uint64_t seed) : words(seed), base(base) { In in; client = std::make_unique<Client>(s.get()); }
    Words words;
    uint64_t base;
    us now = 0;
    std::unique_ptr<Client> client;
    std::vector<Tx> live;
    unsigned long outcomes = 0, sends = 0, refused = 0;
    long sleep = -1;
    bool create(const TxSpec& spec) {
        words.given.clear();
        words.given.reserve(64);
        unsigned handle = 0;
        bool ok = false;
        {
            In in; // what the request owns is the client's now
            Client::Request rq{path(spec.path), spec.attrs, spec.unknown};
            if (spec.auth) { rq.maybe_auth = Client::Auth{precis::OpaqueString{std::string(spec.name.begin(), spec.name.end())}, stun::IntegrityData{password(spec.key), spec.hash}}; }
            auto r = client->create(words, at(base, now), std::move(rq));
            ok = r.is_ok();
            if (ok) { handle = r.unwrap().value; }
        }
        if (!ok) { ++refused; return false; }
        Tx x;
        x.handle = handle;
        x.t.handle = handle;
        x.t.tid = words.last_id();
        x.t.spec = spec;
        live.push_back(std::move(x));
        return true;
    }
    void end(unsigned handle) {
        ++outcomes;
        for (size_t i = 0; i < live.size(); ++i) { if (live[i].handle == handle) { std::swap(live[i], live.back()); live.pop_back(); return; } }
    }
    // To sleep (true) or idle (false).
    bool poll() {
        while (true) {
            In in;
            auto e = client->next(at(base, now));
            if (std::get_if<Client::SendData>(&e)) { ++sends; }
            else if (auto* ok = std::get_if<Client::TransactionOk>(&e)) { end(ok->handle.value); }
            else if (auto* f = std::get_if<Client::TransactionFailed>(&e)) { end(f->handle.value); }
            else if (auto* s = std::get_if<Client::Sleep>(&e)) { sleep = s->sleep.count(); return true; }
            else { sleep = -1; return false; }
        }
    }
    void respond(const Bytes& p, bool parsed) {
        In in;
        Maybe<stun::Message> m = None{};
        if (parsed) {
            stun::ParseStat st;
            auto r = stun::Message::parse(view(p), st);
            if (r.is_ok()) { m = std::move(r.unwrap()); }
        }
        (void)client->response(at(base, now), view(p), std::move(m));
    }
    void drain(vf::Ctx& c) {
        for (unsigned n = 0; poll(); ++n) {
            CHECK(sleep > 0 && n < 100000, "drain", "the client does not come to rest");
            now += sleep;
        }
    }
};

Settings random_settings(Rng& r) {
    Settings st;
    st.fingerprint = r.coin();
    st.rc = (unsigned)r.one_of<int>({1, 2, 7});
    st.rto = r.one_of<us>({1000, 100000, 500000});
    st.max_rto = r.coin() ? 4 * st.rto : 0;
    st.server_error = r.coin() ? r.one_of<us>({1000, 1000000}) : -1;
    st.allow_alternate = r.coin();
    st.history = r.one_of<us>({1000000, 3600ll * 1000000});
    return st;
}

bool oversized(TxSpec& t) { t.unknown.clear(); Bytes v(40000); for (int i = 0; i < 2; ++i) { t.unknown.push_back(stun::UnknownAttribute{stun::AttributeType::from_uint16(0xff10), view(v)}); } return true; }

// One generation: as many transactions as the others had, all kinds of ends.
void generation(vf::Ctx& c, Mini& m, unsigned n, const std::deque<PathSpec>& paths) {
    auto& r = c.rng;
    for (unsigned i = 0; i < n; ++i) {
        TxSpec t;
        t.path = r.pick(paths);
        random_auth(r, t);
        if (r.coin()) { t.attrs.push_back(stun::SoftwareAttribute{std::string(r.below(40), 's')}); }
        m.create(t);
        if (r.chance(1, 10)) { TxSpec big; oversized(big); m.create(big); }
        if (r.chance(1, 10)) { TxSpec bad; random_auth(r, bad, 1, 1); bad.hash = [](const crypto::SHA1Hash::Input&) -> Result<crypto::SHA1Hash> { return stun::make_error_code(stun::ParseError::integrity_digest_size); }; m.create(bad); }
        if (r.coin()) { m.poll(); }
    }
    for (unsigned k = 0; k < 3 * n; ++k) {
        if (m.live.empty()) { break; }
        const Txn t = r.pick(m.live).t;
        Bytes p = (r.chance(1, 3) ? success_reply(t, ref::random_addr(r)) : r.chance(1, 4) ? error_reply(t, 500 + (unsigned)r.below(20)) : random_reply(r, t)).bytes();
        if (r.chance(1, 6)) { ref::mutate(r, p); ref::refresh_fingerprint(p); }
        unsigned copies = 1 + (r.chance(1, 4) ? (unsigned)r.below(3) : 0);
        while (copies--) { m.respond(p, r.coin()); }
        if (r.coin()) { m.now += (us)r.below((uint64_t)(r.coin() ? 1000 : 600000)); m.poll(); }
    }
    m.drain(c);
}

}

// All work with objects of its own: everything is given back.
GROUP("P43", "work", 12 * 60, 12 * 4000) {
    CHECK(mem::hooks, "model", "allocation hooks are not installed");
    auto& t = work::tasks()[c.idx % work::tasks().size()];
    uint64_t seed = c.rng.u64();
    { In in; t.fn(seed); t.fn(seed); } // caches
    mem::State a;
    unsigned long before = mem::total;
    uint64_t h = 0;
    for (unsigned k = 0; k < 3; ++k) { In in; h = t.fn(seed); }
    mem::State b;
    CHECK(a == b, "leak", t.name << " repeated three times: " << a.show() << " before, " << b.show() << " after");
    EVN("allocations watched", mem::total - before);
    c.distinct(vf::Hash().add(h).add(c.idx % 12));
    vf::ev(std::string("work: ") + t.name);
}

// A client used for a long time needs what it needed in the beginning.
GROUP("P43", "client", 160, 4000) {
    auto& r = c.rng;
    Settings st = random_settings(r);
    (void)crypto::openssl::sha1({});
    mem::State none;
    Mini m(st, random_base(r), r.u64());
    std::deque<PathSpec> paths;
    for (unsigned i = 0; i < 6; ++i) { paths.push_back(random_path(r, 60)); }
    unsigned n = 4 + (unsigned)r.below(12);
    m.live.reserve(64);
    std::vector<mem::State> early;
    unsigned gens = 80;
    mem::State most{0, 0};
    for (unsigned g = 0; g < gens; ++g) {
        generation(c, m, n, paths);
        if (r.chance(1, 3)) { m.now += (us)r.below(10000000); }
        mem::State s;
        s.blocks -= none.blocks;
        s.bytes -= none.bytes;
        if (g < 15) { most.blocks = std::max(most.blocks, s.blocks); most.bytes = std::max(most.bytes, s.bytes); }
        else {
            CHECK(s.blocks <= most.blocks + 10 && s.bytes <= 2 * most.bytes + 2048, "grows",
                  "an idle client needs " << s.show() << " after " << g + 1 << " generations of " << n << " transactions, after 15 at most " << most.show());
            EV("idle clients measured");
        }
        CHECK(m.live.empty(), "live", "idle with " << m.live.size() << " transactions without outcome");
    }
    EVN("transactions", m.outcomes);
    EVN("transactions refused", m.refused);
    EVN("data sent", m.sends);
    c.distinct(vf::Hash().add((uint64_t)m.now).add(m.outcomes).add(m.sends));
    if (c.wants_sample()) { c.sample(std::to_string(m.outcomes) + " transactions, " + std::to_string(m.sends) + " sends, when idle at most early " + most.show()); }
}

// Never idle, at a steady rate.
GROUP("P43", "busy", 80, 2000) {
    auto& r = c.rng;
    Settings st = random_settings(r);
    st.rto = r.one_of<us>({100000, 500000});
    Mini m(st, random_base(r), r.u64());
    m.live.reserve(64);
    us gap = r.one_of<us>({5000, 20000});
    size_t window = (size_t)(st.rto * 16 / gap);
    std::deque<PathSpec> paths;
    for (unsigned i = 0; i < 4; ++i) { paths.push_back(random_path(r, 60)); }
    TxSpec still; // keeps the client awake
    mem::State most{0, 0};
    unsigned warm = (unsigned)window + 100, total = 3 * warm + 600;
    for (unsigned i = 0; i < total; ++i) {
        if (i % 50 == 0) { m.create(still); }
        TxSpec t;
        t.path = r.pick(paths);
        random_auth(r, t, 1, 4);
        m.create(t);
        m.poll();
        const Txn x = m.live.back().t;
        m.now += gap;
        m.respond((r.coin() ? success_reply(x, ref::random_addr(r)) : error_reply(x, 400)).bytes(), r.coin());
        m.poll();
        mem::State s;
        if (i < warm) { most.blocks = std::max(most.blocks, s.blocks); most.bytes = std::max(most.bytes, s.bytes); }
        else { CHECK(s.blocks <= most.blocks + 40 + (long)(16 * total / 50) && s.bytes <= 2 * most.bytes + 4096 + (long)window * 100, "grows", "a busy client needs " << s.show() << " after " << i << " transactions, in the first " << warm << " at most " << most.show()); }
        EV("busy clients measured");
    }
    c.distinct(vf::Hash().add((uint64_t)m.now).add(m.sends).add(r.u64()));
}

// Nothing of the client outlives it, wherever it was stopped.
GROUP("P43", "stopped", 600, 20000) {
    auto& r = c.rng;
    auto once = [&](uint64_t seed) {
        Rng save = r;
        r = Rng(seed);
        Settings st = random_settings(r);
        Mini m(st, random_base(r), r.u64());
        std::deque<PathSpec> paths;
        for (unsigned i = 0; i < 6; ++i) { paths.push_back(random_path(r, 60)); }
        for (unsigned g = 0; g < r.below(3); ++g) { generation(c, m, 5, paths); }
        std::deque<Client::Effect> kept; // outlive the client
        for (unsigned k = 0; k < 20; ++k) {
            TxSpec t;
            t.path = r.pick(paths);
            random_auth(r, t);
            if (r.coin()) { m.create(t); }
            if (!m.live.empty() && r.coin()) { m.respond(random_reply(r, r.pick(m.live).t).bytes(), r.coin()); }
            if (r.coin()) { In in; kept.push_back(m.client->next(at(m.base, m.now))); if (auto* ok = std::get_if<Client::TransactionOk>(&kept.back())) { m.end(ok->handle.value); } if (auto* f = std::get_if<Client::TransactionFailed>(&kept.back())) { m.end(f->handle.value); } }
            m.now += (us)r.below(300000);
        }
        size_t unfinished = m.live.size();
        m.client.reset();
        r = save;
        return unfinished;
    };
    uint64_t seed = r.u64();
    once(seed);
    mem::State a;
    size_t n = once(seed);
    mem::State b;
    CHECK(a == b, "leak", "a client destroyed with " << n << " unfinished transactions: " << a.show() << " before, " << b.show() << " after");
    EV("clients destroyed");
    if (n > 0) { EV("destroyed with unfinished transactions"); }
    c.distinct(vf::Hash().add(seed));
}

// Round trip times are remembered for the history, not for ever.
GROUP("P43", "paths", 60, 1500) {
    auto& r = c.rng;
    Settings st;
    st.history = 1000000 * (us)r.range(1, 30);
    st.rto = 1000;
    st.rc = 3;
    (void)crypto::openssl::sha1({});
    mem::State none;
    Mini m(st, random_base(r), r.u64());
    us gap = r.one_of<us>({100000, 500000, 1000000});
    size_t window = (size_t)(st.history / gap) + 2;
    m.live.reserve(8);
    bool one = r.chance(1, 4); // some come back
    unsigned mode = (unsigned)r.below(3);
    auto serve = [&](uint64_t i) {
        TxSpec t;
        uint64_t k = one ? i % (3 * window) : i;
        t.path.source = {10, (uint8_t)(k >> 16), (uint8_t)(k >> 8), (uint8_t)k};
        if (i % 5 == 0) { t.path.source.resize(16, 9); }
        m.create(t);
        m.poll();
        if (mode == 0 ? i % 3 == 0 : mode == 1) { m.now += 1000; m.poll(); } // retransmitted: back-off
        Bytes p = success_reply(m.live[0].t, ref::random_addr(r)).bytes();
        m.respond(p, false);
        m.now += gap;
        m.poll();
    };
    uint64_t i = 0;
    for (; i < 2 * window + 40; ++i) { serve(i); }
    mem::State a;
    for (; i < 8 * window + 800; ++i) {
        serve(i);
        mem::State b;
        CHECK(b.blocks <= a.blocks + (long)window + 10 && b.bytes - none.bytes <= 2 * (a.bytes - none.bytes) + 4096 + (long)window * 200, "grows", "after " << i << " paths the client needs " << b.show() << ", after " << 2 * window + 40 << " it was " << a.show() << "; " << window << " paths are in the history");
        EV("paths");
    }
    c.distinct(vf::Hash().add((uint64_t)m.now).add(one).add(r.u64()));
}

// Packets that have no effect leave nothing.
GROUP("P43", "client noise", 200, 6000) {
    auto& r = c.rng;
    Settings st = random_settings(r);
    st.rc = 7; st.rto = 500000; st.max_rto = 0;
    Mini m(st, random_base(r), r.u64());
    TxSpec t;
    random_auth(r, t, 1, 1);
    if (t.key.empty()) { t.key = {1}; }
    m.live.reserve(8);
    CHECK(m.create(t), "create", "transaction is refused");
    m.poll();
    const Txn live = m.live[0].t;
    auto noise = [&] {
        Reply p = random_reply(r, live);
        switch (r.below(5)) {
        case 4: p = error_reply(live, (unsigned)r.one_of<int>({0, 100, 299, 600, 699, 700})); break; // codes without meaning
        case 0: p.tid = r.bytes(12); break;                       // nobody's
        case 1: p.key = r.bytes(7); p.sign = true; break;         // wrong key
        case 2: p.sign = true; p.key = live.spec.key; p.cls = (unsigned)r.below(2); break; // not a response
        default: {
            Bytes b = p.bytes();
            b[r.below(4)] ^= (uint8_t)(1 + r.below(255));
            b.resize(r.below(b.size() + 1));
            m.respond(b, r.coin());
            return;
        }
        }
        m.respond(p.bytes(), r.coin());
    };
    noise(); noise();
    for (unsigned k = 0; k < 30; ++k) { noise(); }
    m.poll();
    mem::State a;
    unsigned long ended = m.outcomes;
    for (unsigned k = 0; k < 500; ++k) { noise(); TxSpec big; if (k % 25 == 0 && oversized(big)) { m.create(big); } }
    mem::State b;
    m.poll();
    if (m.outcomes == ended) {
        CHECK(b.blocks <= a.blocks + 1 && b.bytes <= a.bytes + 1024, "grows", "500 packets without effect: " << a.show() << " before, " << b.show() << " after");
        EVN("packets without effect", 530);
    }
    c.distinct(vf::Hash().add((uint64_t)mem::total).add(live.tid));
}

// Many retransmissions of one request.
GROUP("P43", "retransmissions", 60, 1000) {
    auto& r = c.rng;
    Settings st = random_settings(r);
    st.rc = 3000;
    st.rto = 1000; st.max_rto = 2000;
    bool errors = r.coin();
    st.server_error = 1500; st.server_error_max = 3000;
    Mini m(st, random_base(r), r.u64());
    TxSpec t;
    random_auth(r, t);
    m.live.reserve(8);
    m.create(t);
    m.poll();
    const Txn live = m.live[0].t;
    Bytes p = error_reply(live, 503).bytes();
    mem::State a, most{0, 0};
    for (unsigned k = 0; k < 2500; ++k) {
        if (errors && k % 2) { m.respond(p, k % 3 == 0); }
        if (!m.poll()) { break; }
        m.now += m.sleep;
        mem::State b;
        if (k < 50) { most.blocks = std::max(most.blocks, b.blocks); most.bytes = std::max(most.bytes, b.bytes); }
        else { CHECK(b.blocks <= most.blocks + 4 && b.bytes <= most.bytes + 2048, "grows", "after " << k << " transmissions the client needs " << b.show() << ", in the beginning " << most.show()); }
    }
    CHECK(m.live.size() == 1 && m.sends > 1000, "model", m.sends << " transmissions only");
    EVN("retransmissions", m.sends);
    c.distinct(vf::Hash().add(live.tid).add(m.sends));
}

// The server keeps its users and nothing else.
GROUP("P43", "server", 250, 8000) {
    auto& r = c.rng;
    std::unique_ptr<stun::server::Stateless> s;
    { In in; s = std::make_unique<stun::server::Stateless>(crypto::openssl::sha1, Maybe<stun::server::Stateless::Settings>{stun::server::Stateless::Settings{.use_fingerprint = r.coin()}}); }
    std::vector<std::pair<Bytes, Bytes>> users;
    for (unsigned i = 0; i < 4; ++i) { users.emplace_back(r.bytes(1 + r.below(30)), r.bytes(r.below(80))); }
    auto add = [&] { for (auto& [n, k] : users) { In in; s->add_user(precis::OpaqueString{std::string(n.begin(), n.end())}, password(k)); } };
    add();
    auto packet = [&] {
        bool old = r.chance(1, 5);
        Bytes tid = r.bytes(old ? 16 : 12);
        if (old) { tid[0] = 0; }
        ref::Enc e(ref::msg_type(0, 1), tid);
        if (r.chance(1, 5)) { e.attr(0x7777, r.bytes(3)); }
        if (r.chance(3, 4)) {
            auto& u = r.pick(users);
            e.attr(ref::A_USERNAME, r.chance(5, 6) ? u.first : r.bytes(20));
            if (r.chance(5, 6)) { e.integrity(r.chance(4, 5) ? u.second : r.bytes(4)); }
        }
        if (r.coin() && !old) { e.fingerprint(); }
        Bytes p = e.bytes();
        if (r.chance(1, 5)) { p = ref::random_message(r).packet; }
        if (r.chance(1, 5)) { ref::mutate(r, p); }
        return p;
    };
    auto serve = [&](const Bytes& p) {
        In in;
        auto res = s->process(endpoint(ref::random_addr(r), r.coin()), view(p));
        if (auto* a = std::get_if<stun::server::Stateless::Respond>(&res)) { (void)a->response.build(a->maybe_integrity); Out out; EV("answers"); }
    };
    for (unsigned k = 0; k < 12; ++k) { serve(packet()); }
    mem::State a;
    for (unsigned k = 0; k < 120; ++k) { serve(packet()); }
    mem::State b;
    CHECK(a == b, "grows", "the server has " << a.show() << " before 120 packets, " << b.show() << " after");
    for (unsigned k = 0; k < 30; ++k) { add(); }
    mem::State d;
    CHECK(d.blocks <= b.blocks + 16 && d.bytes <= b.bytes + 2048, "users", "adding the same 4 users again 30 times: " << b.show() << " before, " << d.show() << " after");
    EVN("packets served", 132);
    c.distinct(vf::Hash().add((uint64_t)mem::total).add(r.u64()));
    s.reset();
}

// What the library needs to parse something is in proportion to its size.
GROUP("P43", "peak", 900, 30000) {
    auto& r = c.rng;
    Bytes p;
    std::string text;
    std::string what;
    size_t n = r.below(r.chance(1, 3) ? 16000 : 600);
    unsigned kind = (unsigned)(c.idx % 9);
    auto header = [&](uint32_t type, size_t len) { ref::put16(p, type); ref::put16(p, (uint32_t)len); ref::put32(p, ref::COOKIE); Bytes id = r.bytes(12); p.insert(p.end(), id.begin(), id.end()); };
    switch (kind) {
    case 0: what = "empty unknown attributes"; header(0x0001, 4 * n); for (size_t i = 0; i < n; ++i) { ref::put16(p, 0x7f00 + (uint32_t)r.below(200)); ref::put16(p, 0); } break;
    case 1: what = "repeated attributes"; header(0x0101, 4 * n); for (size_t i = 0; i < n; ++i) { ref::put16(p, ref::A_USE); ref::put16(p, 0); } break;
    case 2: what = "list of unknown attributes"; header(0x0111, 4 * n + 4); ref::put16(p, ref::A_UNKNOWN); ref::put16(p, (uint32_t)(4 * n)); p.resize(24 + 4 * n, 5); break;
    case 3: what = "lengths that lie"; header(0x0001, 0xfffc); ref::put16(p, 0x8022); ref::put16(p, 0xffff); p.resize(24 + r.below(40), 1); break;
    case 4: what = "random message"; p = ref::random_message(r).packet; ref::mutate(r, p); break;
    case 5: what = "RTP"; p = r.bytes(12 + r.below(80)); p[0] = (uint8_t)(0x80 | (p[0] & 0x3f)); break;
    case 6: what = "candidate"; text = "candidate:1 1 udp 1 192.0.2.1 9 typ host"; for (size_t i = 0; i < n / 2; ++i) { text += " a b"; } break;
    case 7: what = "name"; while (text.size() < 4 * n) { text += "ab."; } text += "c"; break;
    default: what = "spaces"; text = std::string(4 * n, r.coin() ? ' ' : ':'); break;
    }
    rtp::PayloadMap map{{rtp::PayloadType::from_uint8(0).unwrap(), rtp::PayloadMapItem{rtp::ClockRate(8000)}}};
    auto run = [&] {
        In in;
        if (kind < 5) {
            stun::ParseStat st;
            auto m = stun::Message::parse(view(p), st);
            if (m.is_ok()) { (void)m.unwrap().build(); Out out; EV("messages parsed"); }
        } else if (kind == 5) {
            rtp::ParseStat st{};
            (void)rtp::Packet::parse(view(p), map, st);
        } else {
            (void)work::ic::parse_sdp_attr(text);
            (void)net::Fqdn::parse(text);
            (void)net::ip::Address::from_string(text);
            (void)util::string_view::split_all(std::string_view(text), ' ');
        }
    };
    run();
    mem::State a;
    mem::peak = mem::bytes;
    run();
    long need = mem::peak - a.bytes;
    size_t size = std::max(p.size(), text.size());
    CHECK(mem::State() == a, "leak", what << " of " << size << " bytes: " << a.show() << " before, " << mem::State().show() << " after");
    CHECK(need <= 65536 + 200 * (long)size, "peak", what << " of " << size << " bytes needs " << need << " bytes of memory");
    EV("peaks measured");
    if (size > 4000) { EV("large inputs"); }
    if (c.wants_sample()) { c.sample(what + " of " + std::to_string(size) + " bytes: " + std::to_string(need) + " bytes of memory at once"); }
    c.distinct(vf::Hash().add(p).add(text));
}

// Lists and streams.
GROUP("P43", "containers", 200, 5000) {
    auto& r = c.rng;
    std::deque<work::Item> items;
    for (int i = 0; i < 40; ++i) { items.emplace_back(i); }
    mem::State a;
    {
        In in;
        util::IntrusiveList<work::Item> l(&work::Item::link), m(&work::Item::link);
        for (unsigned k = 0; k < 600; ++k) {
            auto& e = r.pick(items);
            switch (r.below(6)) {
            case 0: l.push_back(e); break;
            case 1: l.push_front(e); break;
            case 2: m = std::move(l); break;
            case 3: if (!m.empty()) { m.pop_back(); } break;
            case 4: e.link.remove(); break;
            default: if (r.chance(1, 10)) { m.clear(); } else { l.push_back(e); }
            }
            Out out;
            EV("list operations");
        }
    }
    CHECK(mem::State() == a, "list", "lists keep " << mem::State().show() << ", before " << a.show());
    c.distinct(vf::Hash().add(r.u64()));
}
