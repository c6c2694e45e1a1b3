// P24: clients and servers over a simulated network that loses, duplicates,
// delays, reorders, corrupts and misdelivers packets.
#include "clientlib.hpp"
#include "stun/stun_server_stateless.hpp"
#include <queue>

using namespace cl;

namespace {

using Server = stun::server::Stateless;
constexpr us NEVER = std::numeric_limits<us>::max();

struct Net { // probabilities in percent
    unsigned loss = 0, dup = 0, corrupt = 0, stray = 0;
    us delay_min = 1000, delay_max = 100000;
};

struct Packet {
    us at;
    uint64_t seq;
    bool to_server;
    unsigned client, server;
    Bytes data;
    bool corrupted = false;
    ref::Addr from;   // to_server: source address; else: address the server saw
    int txn = -1;
    unsigned answers = 0; // to_client: number of transmissions until the request was sent
    us sent = 0;
    bool operator<(const Packet& o) const { return at != o.at ? at > o.at : seq > o.seq; } // earliest first
};

struct Host { // of a client
    std::unique_ptr<Driver> d;
    us wake = NEVER;
    us next_create = 0;
    unsigned to_create = 0;
    ref::Addr nat; // how servers see it
    bool rebinds = false;
    std::vector<bool> live;              // outcome not determined
    std::vector<Outcome> want;           // determined outcome
};

struct User { Bytes name, key; };
struct Node { // server
    std::unique_ptr<Server> s;
    Bytes ip;
    std::vector<User> users;
    uint64_t requests = 0, responses = 0;
};

// Changes bits in the header or in values of attributes.
bool corrupt(Rng& r, Bytes& p) {
    std::vector<size_t> ok;
    for (size_t i = 0; i < 20; ++i) { if (i != 2 && i != 3) { ok.push_back(i); } }
    size_t i = 20;
    while (i + 4 <= p.size()) {
        size_t n = ref::get16(&p[i + 2]);
        for (size_t k = 0; k < n && i + 4 + k < p.size(); ++k) { ok.push_back(i + 4 + k); }
        i += 4 + (n + 3) / 4 * 4;
    }
    // Confined to 32 bits: four neighbouring bytes.
    size_t at = r.below(ok.size());
    bool changed = false;
    for (size_t k = at; k < ok.size() && ok[k] < ok[at] + 4; ++k) {
        uint8_t x = r.coin() ? (uint8_t)(1u << r.below(8)) : r.u8();
        if (k > at && r.coin()) { x = 0; }
        p[ok[k]] ^= x;
        changed |= x != 0;
    }
    return changed;
}

struct Sim {
    vf::Ctx& c;
    Rng& r;
    Net net;
    std::vector<Host> hosts;
    std::vector<Node> nodes;
    std::priority_queue<Packet> q;
    uint64_t seq = 0;
    us now = 0;
    bool polls_first = false, lazy = false;
    uint64_t lost = 0, duplicated = 0, corrupted = 0, reordered = 0, delivered = 0, strays = 0, late = 0;
    uint64_t last_seq_c = 0;
    vf::Hash history;

    Sim(vf::Ctx& ctx) : c(ctx), r(ctx.rng) {}

    us delay() { return net.delay_min + (us)r.below((uint64_t)(net.delay_max - net.delay_min) + 1); }

    void transmit(Packet p, bool has_fingerprint) {
        unsigned copies = 1;
        if (r.below(100) < net.loss) { copies = 0; ++lost; }
        while (copies > 0 && copies < 4 && r.below(100) < net.dup) { ++copies; ++duplicated; }
        while (copies--) {
            Packet k = p;
            k.at = now + delay();
            k.seq = ++seq;
            if (has_fingerprint && r.below(100) < net.corrupt && corrupt(r, k.data)) { k.corrupted = true; }
            if (!k.to_server && r.below(100) < net.stray) { Packet s = k; s.client = (unsigned)r.below(hosts.size()); s.at = now + delay(); s.seq = ++seq; q.push(s); }
            q.push(k);
        }
    }

    void create(unsigned ci) {
        Host& h = hosts[ci];
        unsigned si = (unsigned)r.below(nodes.size());
        TxSpec t;
        t.path = PathSpec{h.nat.ip, nodes[si].ip};
        if (r.coin()) {
            t.auth = true;
            auto& users = nodes[r.chance(7, 8) ? si : r.below(nodes.size())].users; // perhaps of another server
            if (users.empty()) { t.name = r.bytes(4); t.key = r.bytes(8); }
            else { auto& u = r.pick(users); t.name = u.name; t.key = u.key; }
            if (r.chance(1, 10)) { t.key.push_back('x'); }
        } else if (r.chance(1, 12)) { // name without signature: 400
            t.attrs.push_back(stun::Attribute::create(stun::UsernameAttribute{precis::OpaqueString{std::string("someone")}}).value());
        }
        if (r.chance(1, 4)) { t.attrs.push_back(stun::Attribute::create(stun::SoftwareAttribute{std::string(r.below(40), 's')}).value()); }
        if (r.chance(1, 10)) { unsigned n = 1 + (unsigned)r.below(3); for (unsigned k = 0; k < n; ++k) { t.unknown.push_back(unknown((uint16_t)(0x7000 + r.below(100)))); } }
        if (r.chance(1, 10)) { t.unknown.push_back(unknown((uint16_t)(0xf000 + r.below(100)))); }
        h.d->now = now;
        int k = h.d->create(t);
        CHECK(k >= 0, "create", "transaction is refused: " << h.d->create_error);
        h.live.push_back(true);
        h.want.emplace_back();
        server_of[{ci, (unsigned)k}] = si;
        EV("transactions");
        poll(ci);
    }
    std::map<std::pair<unsigned, unsigned>, unsigned> server_of;
    static stun::UnknownAttribute unknown(uint16_t type) { return stun::UnknownAttribute{stun::AttributeType::from_uint16(type), view(Bytes{1, 2, 3})}; }

    void poll(unsigned ci) {
        Host& h = hosts[ci];
        h.d->now = now;
        for (auto& e : h.d->poll()) {
            auto it = h.d->by_handle.find(e.handle);
            CHECK(it != h.d->by_handle.end(), "handle", "unknown handle: " << e.show());
            unsigned k = (unsigned)it->second;
            Txn& t = h.d->txns[k];
            if (e.type == Ev::SEND) {
                Packet p;
                p.to_server = true;
                p.client = ci;
                p.server = server_of[{ci, k}];
                p.from = h.nat;
                p.txn = (int)k;
                p.answers = (unsigned)t.sends.size();
                p.sent = now;
                p.data = t.data; // transmissions are identical (P21)
                if (h.rebinds && r.chance(1, 10)) { h.nat.port = r.u32(); }
                transmit(p, h.d->settings.fingerprint);
                EV("requests sent");
            } else {
                history.add(ci).add(k).add(e.hash).add((uint64_t)now);
                if (!h.live[k]) {
                    const Outcome& w = h.want[k];
                    CHECK(e.outcome.same(w), "outcome", "transaction " << k << " of client " << ci << " ends with " << e.outcome.show() << " instead of " << w.show() << ": " << h.d->show_trace());
                    if (w.kind == K_OK) {
                        CHECK(e.outcome.rtt == w.rtt, "rtt", "round-trip time " << e.outcome.rtt << " instead of " << w.rtt << ": " << h.d->show_trace());
                        EV("successes");
                        if (t.sends.size() > 1) { EV("successes after retransmission"); }
                        if (t.spec.auth) { EV("authenticated successes"); }
                    } else { vf::ev(std::string("outcomes: ") + kind_name(w.kind)); }
                } else {
                    CHECK(e.outcome.kind == K_TIMEOUT, "outcome", "transaction " << k << " of client " << ci << " ends with " << e.outcome.show() << " although no valid response came: " << h.d->show_trace());
                    CHECK(t.sends.size() == std::max(1u, h.d->settings.rc), "timeout.early", "timeout after " << t.sends.size() << " transmissions");
                    h.live[k] = false;
                    h.want[k] = e.outcome;
                    EV("timeouts");
                }
            }
        }
        h.wake = h.d->last.type == Ev::SLEEP ? now + std::max<us>(1, h.d->last.sleep) : NEVER;
        CHECK(h.d->broken.empty(), "protocol", h.d->broken);
    }

    void at_server(const Packet& p) {
        Node& n = nodes[p.server];
        vf::Exact x(p.data);
        auto result = n.s->process(endpoint(p.from), view(x));
        auto* rsp = std::get_if<Server::Respond>(&result);
        if (p.corrupted) {
            CHECK(rsp == nullptr, "corrupted.request", "server answers a corrupted request: " << vf::hex(p.data));
            EV("corrupted requests");
            ++corrupted;
            return;
        }
        ++n.requests;
        CHECK(rsp != nullptr, "request.ignored", "server does not answer " << vf::hex(p.data));
        auto built = rsp->response.build(rsp->maybe_integrity);
        CHECK(built.is_ok(), "response.build", "response cannot be built");
        x.release();
        ++n.responses;
        Packet a = p;
        a.to_server = false;
        a.data = Bytes(built.unwrap().begin(), built.unwrap().end());
        bool fp = ref::decode(a.data).has(ref::A_FINGERPRINT);
        transmit(a, fp);
        EV("responses sent");
    }

    void at_client(const Packet& p) {
        Host& h = hosts[p.client];
        h.d->now = now;
        if (p.seq < last_seq_c) { ++reordered; }
        last_seq_c = p.seq;
        if (p.corrupted) {
            bool refused = h.d->respond(p.data, r.coin()).is_some();
            CHECK(refused, "corrupted.response", "client takes a corrupted response: " << vf::hex(p.data));
            EV("corrupted responses");
            ++corrupted;
        } else {
            Verdict v = classify(p.data, h.d->txns, h.live, h.d->settings);
            CHECK(!v.unspecified, "harness", "unspecified response of the server " << vf::hex(p.data));
            auto error = h.d->respond(p.data, r.coin());
            if (v.type == Verdict::ERROR) {
                CHECK(error.is_some(), "accepted", "client takes a response it should refuse (" << v.ec.message() << "): " << vf::hex(p.data));
                EV("responses refused");
                if (v.ec == stun::make_error_code(stun::ClientError::transaction_not_found)) { EV("late, duplicated and stray responses"); ++late; }
            } else {
                CHECK(error.is_none(), "refused", "client refuses a valid response (" << error.unwrap().message() << "): " << vf::hex(p.data));
                CHECK(v.type == Verdict::FINAL, "harness", "response without meaning");
                CHECK(v.txn == p.txn, "harness", "response for transaction " << v.txn << " instead of " << p.txn);
                Outcome o = v.outcome;
                if (o.kind == K_OK) {
                    // What the server saw, not just what the packet says.
                    CHECK(o.addr == p.from, "address", "server reports " << show(o.addr) << " for a request from " << show(p.from));
                    const Txn& t = h.d->txns[v.txn];
                    if (t.sends.size() == 1) { o.rtt = now - t.sends[0]; }
                    bool known = false;
                    auto& users = nodes[p.server].users;
                    for (auto& u : users) { known |= u.name == t.spec.name && u.key == t.spec.key; }
                    CHECK(!t.spec.auth || known, "unauthenticated", "success with credentials that the server does not know");
                }
                h.live[v.txn] = false;
                h.want[v.txn] = o;
            }
        }
        ++delivered;
        if (!lazy || r.coin()) { poll(p.client); }
        else { h.wake = std::min(h.wake, now + (us)r.below(50000)); }
    }

    void run() {
        for (unsigned steps = 0;; ++steps) {
            CHECK(steps < 60000, "endless", "the simulation does not come to an end");
            us tp = q.empty() ? NEVER : q.top().at, tw = NEVER, tc = NEVER;
            unsigned wi = 0, ci = 0;
            for (unsigned i = 0; i < hosts.size(); ++i) {
                if (hosts[i].wake < tw) { tw = hosts[i].wake; wi = i; }
                if (hosts[i].to_create > 0 && hosts[i].next_create < tc) { tc = hosts[i].next_create; ci = i; }
            }
            us t = std::min(tp, std::min(tw, tc));
            if (t == NEVER) { break; }
            now = std::max(now, t);
            if (tc == t) { --hosts[ci].to_create; hosts[ci].next_create = now + (us)r.below(r.chance(1, 3) ? 10 : 3000000); create(ci); }
            else if (tw == t && (tp != t || polls_first)) { poll(wi); }
            else { Packet p = q.top(); q.pop(); if (p.to_server) { at_server(p); } else { at_client(p); } }
        }
        for (unsigned i = 0; i < hosts.size(); ++i) {
            Host& h = hosts[i];
            for (auto& t : h.d->txns) { CHECK(t.outcomes == 1, "outcomes", "transaction has " << t.outcomes << " outcomes: " << h.d->show_trace()); }
            CHECK(h.d->last.type == Ev::IDLE, "idle", "client is not idle at the end");
        }
        for (auto& n : nodes) { CHECK(n.requests == n.responses, "answers", n.responses << " responses to " << n.requests << " requests"); }
    }
};

void simulate(vf::Ctx& c, bool corruption, unsigned max_clients, unsigned max_txns) {
    Sim s(c);
    Rng& r = c.rng;
    s.net.loss = r.one_of<unsigned>({0, 5, 20, 50, 80, 100});
    s.net.dup = r.one_of<unsigned>({0, 5, 30, 60});
    s.net.stray = r.one_of<unsigned>({0, 0, 10});
    s.net.corrupt = corruption ? r.one_of<unsigned>({5, 30, 90}) : 0;
    s.net.delay_min = r.one_of<us>({0, 1, 1000, 200000});
    s.net.delay_max = s.net.delay_min + r.one_of<us>({0, 1000, 300000, 5000000, 60000000});
    s.polls_first = r.coin();
    s.lazy = r.chance(1, 3);
    unsigned ns = 1 + (unsigned)r.below(3);
    for (unsigned i = 0; i < ns; ++i) {
        Node n;
        n.ip = r.coin() ? Bytes{192, 0, 2, (uint8_t)i} : Bytes{0x20, 1, 13, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, (uint8_t)i};
        n.s = std::make_unique<Server>(crypto::openssl::sha1, Maybe<Server::Settings>{Server::Settings{.use_fingerprint = corruption || r.coin()}});
        unsigned nu = (unsigned)r.below(4);
        for (unsigned k = 0; k < nu; ++k) {
            User u{Bytes{'u', (uint8_t)('0' + k)}, r.bytes(1 + r.below(80))};
            n.s->add_user(precis::OpaqueString{std::string(u.name.begin(), u.name.end())}, password(u.key));
            n.users.push_back(u);
        }
        s.nodes.push_back(std::move(n));
    }
    unsigned nc = 1 + (unsigned)r.below(max_clients);
    for (unsigned i = 0; i < nc; ++i) {
        Settings st;
        st.fingerprint = corruption || r.coin();
        st.rc = 1 + (unsigned)r.below(7);
        st.rm = 1 + (unsigned)r.below(16);
        st.rto = r.one_of<us>({1000, 100000, 500000});
        st.max_rto = r.chance(1, 4) ? st.rto * (us)(1 + r.below(6)) : 0;
        Host h;
        h.d = std::make_unique<Driver>(st, random_base(r), r.u64());
        h.d->words.next.clear(); // identifiers of different clients are different here
        h.to_create = 1 + (unsigned)r.below(max_txns);
        h.nat = ref::random_addr(r);
        h.rebinds = r.chance(1, 3);
        s.hosts.push_back(std::move(h));
    }
    s.run();
    EVN("packets delivered", s.delivered); EVN("packets lost", s.lost); EVN("packets duplicated", s.duplicated); EVN("packets reordered", s.reordered);
    if (s.history.get() != vf::Hash().get()) { c.distinct(s.history); }
    c.sample("loss " + std::to_string(s.net.loss) + "% duplicates " + std::to_string(s.net.dup) + "% corruption " + std::to_string(s.net.corrupt) + "% delays " + std::to_string(s.net.delay_min) + "-" + std::to_string(s.net.delay_max) + " us, " + std::to_string(nc) + " clients, " + std::to_string(ns) + " servers: " + std::to_string(s.delivered) + " responses delivered, " + std::to_string(s.late) + " late, " + std::to_string(s.reordered) + " reordered");
}

}

GROUP("P24", "lossy network", 1500, 150000) { simulate(c, false, 3, 12); }
GROUP("P24", "corrupting network", 1500, 150000) { simulate(c, true, 3, 12); }
GROUP("P24", "crowd", 60, 6000) { simulate(c, c.rng.coin(), 6, 100); }
