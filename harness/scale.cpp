// P45: what an operation costs does not grow with the number of other transactions,
// paths, users, elements or tokens.
#include "workout.hpp"
#include "worktime.hpp"

namespace {

using namespace cl;

struct Subject {
    virtual ~Subject() = default;
    virtual void op(uint64_t) {} // leaves the size as it is
};

// CPU time of an operation among n: the smallest of several blocks of operations.
double cost(Subject& s, unsigned ops, unsigned blocks) {
    double t = 1e9;
    uint64_t i = 0;
    for (unsigned b = 0; b < blocks; ++b) {
        t = std::min(t, vf::cpu_seconds([&] { for (unsigned k = 0; k < ops; ++k) { s.op(i++); } }) / ops);
        if (t > 0.001) { break; } // a millisecond: enough is known
    }
    return t;
}

struct ClientSubject : Subject {
    ClientSubject(uint64_t seed, const Settings& st, uint64_t base) : r(seed), words(seed), base(base), client(st.get()) {}
    Rng r;
    Words words;
    uint64_t base;
    us now = 0;
    Client client;
    struct Tx { unsigned handle; Bytes tid; PathSpec path; };
    std::vector<Tx> live;
    unsigned long ends = 0, sends = 0, errors = 0;
    static PathSpec numbered(uint64_t k) {
        PathSpec p;
        p.source = {10, 0, 0, 1};
        p.target = {10, (uint8_t)(k >> 16), (uint8_t)(k >> 8), (uint8_t)k};
        return p;
    }
    void create(const PathSpec& p, bool auth = false) {
        words.given.clear();
        Client::Request rq{path(p), {}, {}};
        if (auth) { rq.maybe_auth = Client::Auth{precis::OpaqueString{"user"}, integrity({1, 2, 3})}; }
        auto h = client.create(words, at(base, now), std::move(rq));
        live.push_back(Tx{h.unwrap().value, words.last_id(), p});
    }
    // At most `most` steps.
    void poll(unsigned most = 1000000) {
        while (most--) {
            auto e = client.next(at(base, now));
            if (std::holds_alternative<Client::SendData>(e)) { ++sends; }
            else if (std::holds_alternative<Client::TransactionOk>(e) || std::holds_alternative<Client::TransactionFailed>(e)) { ++ends; }
            else { return; }
        }
    }
    void answer(size_t i, bool forget = true) {
        Txn t;
        t.tid = live[i].tid;
        Bytes p = success_reply(t, ref::Addr{{1, 2, 3, 4}, 5}).bytes();
        if (client.response(at(base, now), view(p)).is_err()) { ++errors; }
        if (forget) { std::swap(live[i], live.back()); live.pop_back(); }
    }
};

enum { LIVE, UNKNOWN, IDLE_POLL, RETRANSMIT, PATHS, BACKOFF, TURNOVER, HISTORY, SERVER_ERROR, EFFECTS, CLIENT_KINDS };
const char* client_kinds[] = {"a transaction among live ones", "an unknown response among live transactions", "a poll with nothing due", "a retransmission", "a measurement on a known path", "a back-off on a known path",
                              "a new path while an old one is forgotten", "a transaction after completed ones", "a server error", "an effect among pending ones"};

struct ClientKind : ClientSubject {
    unsigned kind;
    size_t n;
    ClientKind(unsigned kind, size_t n, uint64_t seed, const Settings& st, uint64_t base) : ClientSubject(seed, st, base), kind(kind), n(n) {
        switch (kind) {
        case PATHS: case BACKOFF: case TURNOVER:
            for (size_t i = 0; i < n; ++i) { create(numbered(i)); poll(); answer(0); poll(); now += 10; }
            break;
        case HISTORY:
            for (size_t i = 0; i < n; ++i) { create(numbered(0)); poll(); answer(0); poll(); }
            break;
        case EFFECTS:
            for (size_t i = 0; i < n; ++i) { create(numbered(i % 16)); }
            break;
        case RETRANSMIT:
            for (size_t i = 0; i < n; ++i) { create(numbered(i)); now += 20; poll(); }
            break;
        default:
            for (size_t i = 0; i < n; ++i) { create(numbered(i % 16)); poll(); }
        }
    }
    void op(uint64_t i) override {
        switch (kind) {
        case LIVE: create(numbered(i % 16)); poll(); answer(r.below(live.size())); poll(); break;
        case UNKNOWN: { Txn t; t.tid = r.bytes(12); Bytes p = success_reply(t, ref::Addr{{1, 2, 3, 4}, 5}).bytes(); errors += client.response(at(base, now), view(p)).is_err(); break; }
        case IDLE_POLL: poll(); break;
        case RETRANSMIT: now += 20; poll(); break;
        case PATHS: create(numbered(r.below(n))); poll(); now += 3; answer(0); poll(); break;
        case BACKOFF: create(numbered(r.below(n))); poll(); now += 100000000; poll(); answer(0); poll(); break;
        case TURNOVER: create(numbered(n + i)); poll(); answer(0); poll(); now += 10; break;
        case HISTORY: create(numbered(0)); poll(); answer(0); poll(); break;
        case SERVER_ERROR: { Txn t; t.tid = live[r.below(live.size())].tid; Bytes p = error_reply(t, 500).bytes(); errors += client.response(at(base, now), view(p)).is_err(); break; }
        default: poll(1); create(numbered(i % 16)); break;
        }
    }
};

struct ServerSubject : Subject {
    unsigned kind;
    Rng r;
    stun::server::Stateless s{crypto::openssl::sha1};
    size_t n;
    net::Endpoint from = endpoint(ref::Addr{{9, 8, 7, 6}, 5});
    unsigned long ok = 0;
    Bytes name(uint64_t i) { std::string t = kind % 2 ? "user" + std::to_string(i) : std::to_string(i) + ":peer"; return ref::bytes_of(t); }
    ServerSubject(unsigned kind, size_t n, uint64_t seed) : kind(kind), r(seed), n(n) { for (size_t i = 0; i < n; ++i) { add(i); } }
    void add(uint64_t i) { Bytes b = name(i); s.add_user(precis::OpaqueString{std::string(b.begin(), b.end())}, password({1, 2})); }
    void op(uint64_t i) override {
        ref::Enc e(ref::msg_type(0, 1), r.bytes(12));
        if (kind / 2 == 2) { add(r.below(n)); return; }
        e.attr(ref::A_USERNAME, name(kind / 2 == 0 ? r.below(n) : n + i));
        e.integrity(Bytes{1, 2});
        Bytes p = e.bytes();
        auto res = s.process(from, view(p));
        if (auto* a = std::get_if<stun::server::Stateless::Respond>(&res)) { ok += a->response.header.cls == stun::Class::success_response(); }
    }
};

struct ListSubject : Subject {
    unsigned kind;
    Rng r;
    using L = util::IntrusiveList<work::Item>;
    std::deque<work::Item> items;
    L a{&work::Item::link}, b{&work::Item::link};
    unsigned long sum = 0;
    ListSubject(unsigned kind, size_t n, uint64_t seed) : kind(kind), r(seed) { for (size_t i = 0; i < n; ++i) { items.emplace_back((int)i); a.push_back(items.back()); } }
    void op(uint64_t) override {
        auto& e = r.pick(items);
        for (unsigned k = 0; k < 8; ++k) {
            switch (kind) {
            case 0: e.link.remove(); a.push_back(e); break;
            case 1: a.push_front(e); sum += (unsigned long)a.back().unwrap().get().id; break;
            case 2: b = std::move(a); a = std::move(b); break;
            case 3: { L t(std::move(a)); a = std::move(t); break; }
            case 4: { auto& f = a.front().unwrap().get(); a.pop_front(); a.push_back(f); break; }
            case 5: { auto& f = a.back().unwrap().get(); a.pop_back(); a.push_front(f); break; }
            case 6: sum += a.empty() + e.link.in_list(); break;
            default: { work::Item x(7); e.link.remove(); a.push_front(x); x.link.remove(); a.push_back(e); }
            }
        }
    }
};
const unsigned LIST_KINDS = 8;

struct StreamSubject : Subject {
    unsigned kind;
    std::vector<std::string_view> v;
    std::unique_ptr<util::TokenStream> s;
    size_t left;
    StreamSubject(unsigned kind, size_t n, uint64_t) : kind(kind), v(n, "token") { again(); }
    void again() { s = std::make_unique<util::TokenStream>(v); left = v.size(); }
    void op(uint64_t) override {
        for (unsigned k = 0; k < 16 && left > 0; ++k, --left) {
            switch (kind) {
            case 0: (void)s->required(); break;
            case 1: (void)s->optional(); break;
            default: (void)s->required("token");
            }
        }
        if (left == 0) { again(); } // costs as much as the tokens read
    }
};

const char* server_kinds[] = {"a request of a known user", "a request of a known user", "a request of an unknown user", "a request of an unknown user", "adding a user again", "adding a user again"};

std::unique_ptr<Subject> make(unsigned k, size_t n, uint64_t seed, std::string& what) {
    if (k < CLIENT_KINDS) {
        Settings st;
        st.fingerprint = seed & 1;
        what = client_kinds[k];
        st.rto = 60000000; // nothing is due
        uint64_t base = seed & 2 ? 0 - 1000000ull : seed;
        switch (k) {
        case RETRANSMIT: st.rto = 20 * (us)n; st.max_rto = 20 * (us)n; st.rc = 1000000; break;
        case BACKOFF: st.rto = 1000; st.max_rto = 1000; st.rc = 3; st.rm = 2; break;
        case TURNOVER: st.history = 10 * (us)n; break;
        case SERVER_ERROR: st.server_error = 1000000; st.server_error_max = 1000000; break;
        }
        return std::make_unique<ClientKind>(k, n, seed, st, base);
    }
    k -= CLIENT_KINDS;
    if (k < 6) { what = server_kinds[k]; return std::make_unique<ServerSubject>(k, n, seed); }
    k -= 6;
    if (k < LIST_KINDS) { what = "a list operation of kind " + std::to_string(k); return std::make_unique<ListSubject>(k, n, seed); }
    k -= LIST_KINDS;
    what = "a token of kind " + std::to_string(k);
    return std::make_unique<StreamSubject>(k, n, seed);
}
const unsigned KINDS = CLIENT_KINDS + 6 + LIST_KINDS + 3;

}

GROUP("P45", "cost", KINDS, KINDS * 6) {
    unsigned k = (unsigned)(c.idx % KINDS);
    uint64_t seed = c.rng.u64();
    size_t few = 64, many = c.thorough ? 120000 : 24000;
    std::string what, why;
    double ts = 0, tl = 0;
    for (int attempt = 0; attempt < 3; ++attempt) {
        { auto s = make(k, few, seed, what); ts = cost(*s, 400, 12); }
        { auto s = make(k, many, seed, what); tl = cost(*s, 400, 12); }
        EVN("operations measured", 2 * 400 * 12);
        if (tl < 5e-6 || tl < 12 * std::max(ts, 3e-7)) { why.clear(); break; }
        std::ostringstream o;
        o << what << " costs " << ts * 1e6 << " us among " << few << ", " << tl * 1e6 << " us among " << many;
        why = o.str();
    }
    CHECK(why.empty(), "cost", why);
    c.distinct(vf::Hash().add(k).add(seed));
    EV("kinds of operations measured");
    if (getenv("VF_SHOW")) { std::fprintf(stderr, "%s: %.3f %.3f us, ratio %.1f\n", what.c_str(), ts * 1e6, tl * 1e6, tl / ts); }
    if (c.wants_sample() || c.idx < 4) { std::ostringstream o; o << what << " costs " << ts * 1e6 << " us among " << few << ", " << tl * 1e6 << " us among " << many; c.sample(o.str()); }
}

// The operations measured do what they are said to do.
GROUP("P45", "effect", CLIENT_KINDS + 6, (CLIENT_KINDS + 6) * 4) {
    unsigned k = (unsigned)(c.idx % (CLIENT_KINDS + 6));
    std::string what;
    auto s = make(k, 200, c.rng.u64(), what);
    auto* cs = dynamic_cast<ClientKind*>(s.get());
    auto* ss = dynamic_cast<ServerSubject*>(s.get());
    unsigned long ends = cs ? cs->ends : 0, sends = cs ? cs->sends : 0;
    for (uint64_t i = 0; i < 100; ++i) { s->op(i); }
    if (cs) {
        unsigned long e = cs->ends - ends, t = cs->sends - sends;
        bool ok = true;
        switch (k) {
        case LIVE: case PATHS: case TURNOVER: case HISTORY: ok = e == 100 && t == 100 && cs->errors == 0; break;
        case UNKNOWN: ok = e == 0 && t == 0 && cs->errors == 100; break;
        case IDLE_POLL: ok = e == 0 && t == 0; break;
        case RETRANSMIT: ok = e == 0 && t >= 90 && t <= 110; break;
        case BACKOFF: ok = e == 100 && t == 200 && cs->errors == 0; break;
        case SERVER_ERROR: ok = e == 0 && cs->errors == 0; break;
        case EFFECTS: ok = e == 0 && t == 100; break;
        }
        CHECK(ok, "effect", what << ": 100 operations have " << e << " ends, " << t << " sends and " << cs->errors << " errors");
    } else {
        CHECK(ss->ok == ((ss->kind / 2 == 0) ? 100u : 0u), "effect", what << ": " << ss->ok << " of 100 operations have success");
    }
    c.distinct(vf::Hash().add(k).add(1000));
    EV("operations with effect");
}

// A crowd: all at once, until everybody has an outcome; work in proportion to the number.
GROUP("P45", "crowd", 8, 40) {
    unsigned kind = (unsigned)(c.idx % 8);
    uint64_t seed = c.rng.u64();
    std::string lost;
    std::string why = vf::grows_linearly(1000, 16, [&](size_t n) { return n; }, [&](size_t n) {
        Settings st;
        st.rc = 3;
        if (kind == 6) { st.server_error = 1000; }
        auto s = std::make_unique<ClientSubject>(seed, st, seed);
        for (size_t i = 0; i < n; ++i) { s->create(kind % 2 ? ClientSubject::numbered(i) : ClientSubject::numbered(i % 8)); if (kind < 4) { s->poll(); } }
        s->poll();
        switch (kind / 2) {
        case 0: for (size_t i = 0; i < n; ++i) { s->answer(s->r.below(s->live.size())); } break;       // in random order, then polled
        case 1: while (!s->live.empty()) { s->answer(0); s->poll(); } break;
        case 2: for (unsigned k = 0; k < 200; ++k) { s->now += 100000; s->poll(); } break;              // time out
        default:
            for (auto& t : s->live) { Txn x; x.tid = t.tid; Bytes p = error_reply(x, 500).bytes(); (void)s->client.response(at(s->base, s->now), view(p)); }
            for (unsigned k = 0; k < 200; ++k) { s->now += 1000000; s->poll(); }
        }
        s->poll();
        if (s->ends != n) { lost = "of " + std::to_string(n) + " transactions " + std::to_string(s->ends) + " end"; }
        EVN("transactions in crowds", n);
    });
    CHECK(lost.empty(), "lost", lost);
    CHECK(why.empty(), "crowd", "crowd of kind " << kind << ": " << why);
    c.distinct(vf::Hash().add(kind).add(seed));
}
