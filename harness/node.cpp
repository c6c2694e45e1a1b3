// P41, P42: the Node.js bindings over a stand-in of craftnapi, next to the library.
#include <dlfcn.h>
#include <time.h>
#include <deque>
#include <openssl/evp.h>
#include "cryptofail.hpp"
#include "clientlib.hpp"
#include "servergen.hpp"
#include "icegen.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "clock/clock_std.hpp"
#include "node/node_stun/node_stun_message.hpp"
#include "node/node_stun/node_stun_server_stateless.hpp"
#include "node/node_stun/node_stun_client_udp.hpp"
#include "node/node_ice/node_ice_candidate.hpp"
#include "node/openssl/node_openssl_hash.hpp"

using namespace lib;
namespace js = craftnapi;
namespace ic = freewebrtc::ice::candidate;
using js::details::Kind;

// The steady clock under control: the bindings read it themselves.
namespace {
int64_t virtual_ns = -1;
}
namespace std::chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
    if (virtual_ns >= 0) { return time_point(duration(virtual_ns)); }
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return time_point(duration(t.tv_sec * 1000000000ll + t.tv_nsec));
}
} }
namespace {

// Canonical text of a JavaScript value.
std::string show(const js::details::Ref& r) {
    std::ostringstream o;
    switch (r->kind) {
    case Kind::undefined: return "undefined";
    case Kind::null: return "null";
    case Kind::boolean: return r->boolean ? "true" : "false";
    case Kind::number: o.precision(17); o << r->number; return o.str();
    case Kind::bigint: return std::to_string(r->bigint) + "n";
    case Kind::string: return vf::quoted(r->string);
    case Kind::buffer: return "<" + vf::hex(r->buffer) + ">";
    case Kind::function: return "function";
    case Kind::array: { std::string s = "["; for (auto& x : r->items) { s += show(x) + ","; } return s + "]"; }
    case Kind::object: { std::string s = "{"; for (auto& [k, v] : r->props) { if (v->kind != Kind::undefined) { s += k + ":" + show(v) + ","; } } return s + "}"; }
    }
    return "?";
}
std::string show(const js::Value& v) { return show(v.ref()); }

// What is expected, as the same text.
struct O {
    std::map<std::string, std::string> p;
    O& set(const char* k, std::string v) { p[k] = std::move(v); return *this; }
    operator std::string() const { std::string s = "{"; for (auto& [k, v] : p) { s += k + ":" + v + ","; } return s + "}"; }
};
std::string str(std::string_view s) { return vf::quoted(std::string(s)); }
std::string buf(const Bytes& b) { return "<" + vf::hex(b) + ">"; }
std::string num(int64_t v) { return std::to_string(v); }

std::string text(const Bytes& ip) { return address(ip).to_string().unwrap(); }
std::string text(const Bytes& b, int) { return std::string(b.begin(), b.end()); }

std::string want_message(const ref::Decoded& d) {
    O a;
    auto has = [&](uint16_t t) { return d.has(t); };
    auto& k = d.known;
    if (has(ref::A_USERNAME)) { a.set("username", str(text(k.at(ref::A_USERNAME), 0))); }
    if (has(ref::A_SOFTWARE)) { a.set("software", str(text(k.at(ref::A_SOFTWARE), 0))); }
    if (has(ref::A_XOR)) {
        ref::Addr x = ref::xored(ref::Decoded::addr(k.at(ref::A_XOR)), d.tid);
        a.set("xor_mapped", O().set("addr", str(text(x.ip))).set("port", num(x.port)));
    }
    if (has(ref::A_PRIORITY)) { a.set("priority", num(ref::get32(k.at(ref::A_PRIORITY).data()))); }
    if (has(ref::A_CONTROLLING)) { a.set("ice-controlling", std::to_string(ref::get64(k.at(ref::A_CONTROLLING).data())) + "n"); }
    if (has(ref::A_CONTROLLED)) { a.set("ice-controlled", std::to_string(ref::get64(k.at(ref::A_CONTROLLED).data())) + "n"); }
    if (has(ref::A_USE)) { a.set("use-candidate", "true"); }
    if (has(ref::A_ERROR)) {
        auto& v = k.at(ref::A_ERROR);
        a.set("error_code", O().set("code", num(d.error_code())).set("reason", str(text(Bytes(v.begin() + 4, v.end()), 0))));
    }
    static const char* cls[] = {"request", "indication", "success_response", "error_response"};
    return O()
        .set("header", O().set("class", str(cls[d.cls()])).set("method", str("binding")).set("transaction", buf(d.tid)))
        .set("is_rfc3489", d.rfc3489 ? "true" : "false")
        .set("attributes", a);
}
bool binding(const ref::Decoded& d) { return (d.type & ~0x0110) == 1; }
// With a 16 byte id the XOR is not defined.
bool unspecified(const ref::Decoded& d) { return d.lenient || (d.ok && d.rfc3489 && d.has(ref::A_XOR)); }

js::Env env;

js::Value jstr(std::string_view s) { return env.create_string(s).unwrap(); }
js::Value jbuf(const Bytes& b) { return env.create_buffer(view(b)).unwrap(); }
js::Value jnum(double v) { return env.create_double(v).unwrap(); }
js::Value jbool(bool v) { return env.create_boolean(v).unwrap(); }
js::Value jobj(std::vector<std::pair<std::string, js::Value>> props) {
    auto o = env.create_object().unwrap();
    for (auto& [k, v] : props) { o.ref()->props[k] = v.ref(); }
    return o.to_value();
}
// The memory of an argument is gone once the call returned.
void spoil(const js::Value& v) {
    auto& b = v.ref()->buffer;
    std::fill(b.begin(), b.end(), 0xdd);
    std::vector<uint8_t>().swap(b);
    std::string().swap(v.ref()->string);
}
js::Value random_value(Rng& r, Kind not_kind) {
    for (;;) {
        js::Value v = env.create_undefined().unwrap();
        switch (r.below(9)) {
        case 0: break;
        case 1: v = env.create_null().unwrap(); break;
        case 2: v = jbool(r.coin()); break;
        case 3: v = jnum((double)(int64_t)r.u64()); break;
        case 4: v = env.create_bigint_uint64(r.u64()).unwrap(); break;
        case 5: v = jstr(r.coin() ? "" : "1.2.3.4"); break;
        case 6: v = jbuf(r.bytes(r.below(30))); break;
        case 7: v = r.coin() ? jobj({}) : jobj({{"length", jnum(4)}}); break;
        default: v = env.create_array(std::vector<int>(r.below(3)), [](int i) { return env.create_int32(i); }).unwrap();
        }
        if (v.ref()->kind != not_kind) { return v; }
    }
}
// The arguments without the last, with one of another kind, or none at all.
std::vector<js::Value> wrong_arguments(Rng& r, std::vector<js::Value> args) {
    if (r.chance(1, 3) || args.empty()) { args.resize(args.empty() ? 0 : r.below(args.size())); return args; }
    auto& a = args[r.below(args.size())];
    a = random_value(r, a.ref()->kind);
    return args;
}

}

// ---------------------------------------------------------------- P41
GROUP("P41", "messages", 12000, 1000000) {
    for (unsigned k = 0; k < 3; ++k) {
        Bytes p = ref::random_message(c.rng).packet;
        if (k == 0 && p.size() >= 2) { p[0] &= 1; p[1] = (uint8_t)((p[1] & 0x10) | 1); ref::refresh_fingerprint(p); } // binding
        if (k == 2) { unsigned n = 1 + (unsigned)c.rng.below(3); while (n--) { ref::mutate(c.rng, p); } if (c.rng.coin()) { ref::refresh_fingerprint(p); } }
        ref::Decoded d = ref::decode(p);
        js::Value arg = jbuf(p);
        auto r = env.call(freewebrtc::node_stun::message_parse, js::Value(), {arg});
        spoil(arg);
        c.distinct(vf::Hash().add(p));
        if (unspecified(d)) { EV("not specified"); continue; }
        if (!d.ok) {
            CHECK(r.is_err(), "message.accepted", "malformed message (" << d.reason << ") is given as " << show(r.unwrap()) << ": " << vf::hex(p));
            CHECK(error_matches(r.unwrap_err(), d), "message.error", "error '" << r.unwrap_err().message() << "' for " << d.reason << ": " << vf::hex(p));
            EV("malformed messages refused");
            continue;
        }
        if (!binding(d)) { // no name for the method: refused today
            CHECK(r.is_err() || show(r.unwrap()).find("method:\"binding\"") == std::string::npos, "message.method", "method of " << vf::hex(p) << " is called binding");
            EV("other methods");
            continue;
        }
        CHECK(r.is_ok(), "message.refused", "message is refused: " << r.unwrap_err().message() << ": " << vf::hex(p));
        std::string got = show(r.unwrap()), w = want_message(d);
        CHECK(got == w, "message.content", got << " instead of " << w << " for " << vf::hex(p));
        EV("messages reported");
        if (d.has(ref::A_XOR)) { EV("mapped addresses reported"); }
        c.sample(got);
    }
}
GROUP("P41", "candidates", 12000, 1000000) {
    for (unsigned k = 0; k < 3; ++k) {
        std::string s = icegen::random_fields(c.rng).text();
        if (k > 0) { unsigned n = (unsigned)c.rng.below(3); while (n--) { tref::mutate(c.rng, s, " 0123456789abcdefghijklmnoprstuvxyz:./+-"); } }
        auto twin = ic::parse_sdp_attr(s);
        js::Value arg = jstr(s);
        auto r = env.call(freewebrtc::node_ice::ice_candidate_parse, js::Value(), {arg});
        spoil(arg);
        c.distinct(vf::Hash().add(s));
        CHECK(r.is_ok() == twin.is_ok(), "candidate.result", (r.is_ok() ? "accepted" : "refused") << " candidate " << vf::quoted(s));
        if (r.is_err()) {
            CHECK(r.unwrap_err() == twin.unwrap_err(), "candidate.error", r.unwrap_err().message() << " instead of " << twin.unwrap_err().message() << ": " << vf::quoted(s));
            EV("candidates refused");
            continue;
        }
        std::string w;
        if (auto* u = std::get_if<ic::Unsupported>(&twin.unwrap())) {
            w = O().set("result", "null").set("error", str(u->value));
            EV("candidates unsupported");
        } else {
            auto& x = std::get<ic::Supported>(twin.unwrap());
            auto& q = x.candidate;
            O o;
            o.set("host", str(q.address.to_string().unwrap())).set("port", num(q.port.value())).set("type", str(q.type.to_string())).set("transport", str(q.transport_type.to_string()))
                .set("foundation", str(q.foundation.to_string())).set("component", num(q.component.value()));
            if (q.maybe_related_address.is_some()) { o.set("raddr", str(q.maybe_related_address.unwrap().to_string().unwrap())); EV("related addresses reported"); }
            if (q.maybe_related_port.is_some()) { o.set("rport", num(q.maybe_related_port.unwrap().value())); }
            std::string e = "[";
            for (auto& y : x.extensions) { e += std::string(O().set("name", str(y.att_name)).set("value", str(y.att_value))) + ","; EV("extensions reported"); }
            o.set("extensions", e + "]");
            w = O().set("result", o).set("error", "null");
            EV("candidates reported");
        }
        std::string got = show(r.unwrap());
        CHECK(got == w, "candidate.content", got << " instead of " << w << " for " << vf::quoted(s));
        c.sample(got);
    }
}
GROUP("P41", "arguments", 3000, 100000) {
    for (unsigned k = 0; k < 2; ++k) {
        std::vector<js::Value> args{k == 0 ? jbuf(ref::random_message(c.rng).packet) : jstr(icegen::random_fields(c.rng).text())};
        args = wrong_arguments(c.rng, args);
        auto r = k == 0 ? env.call(freewebrtc::node_stun::message_parse, js::Value(), args) : env.call(freewebrtc::node_ice::ice_candidate_parse, js::Value(), args);
        CHECK(r.is_err(), "arguments", (k == 0 ? "message_parse" : "candidate_parse") << " accepts " << (args.empty() ? "nothing" : show(args[0])));
        c.distinct(vf::Hash().add(k).add(args.empty() ? "" : show(args[0])));
        EV("wrong arguments refused");
    }
}

// ---------------------------------------------------------------- P42
namespace {

Bytes evp(const EVP_MD* md, const Bytes& d) {
    Bytes out(EVP_MD_size(md));
    unsigned n = 0;
    EVP_Digest(d.data(), d.size(), out.data(), &n, md, nullptr);
    return out;
}
js::Value method(const js::Value& cls, const char* name, const js::Value& self, std::vector<js::Value> args, js::Result<js::Value>* out) {
    *out = env.call(cls.ref()->methods.at(name), self, std::move(args));
    return out->is_ok() ? out->unwrap() : js::Value();
}

}

GROUP("P42", "hashes", 8000, 500000) {
    Bytes d = c.rng.bytes(c.rng.chance(1, 20) ? c.rng.below(20000) : c.rng.below(300));
    std::deque<vf::Exact> parts;
    for (size_t i = 0; i < d.size() || c.rng.chance(1, 3);) {
        size_t n = std::min(d.size() - i, (size_t)c.rng.below(100));
        parts.emplace_back(Bytes(d.begin() + (long)i, d.begin() + (long)(i + n)), c.rng.below(4));
        i += n;
    }
    std::vector<View> in;
    for (auto& p : parts) { in.push_back(view(p)); }
    c.distinct(vf::Hash().add(d).add(parts.size()));
    auto both = [&](auto&& f) {
        if (c.rng.coin()) { f("MD5", [&] { return crypto::node_openssl::md5(in); }, [&](auto& r) { return bytes(r.unwrap().view()) == evp(EVP_md5(), d); }); }
        else { f("SHA-1", [&] { return crypto::node_openssl::sha1(in); }, [&](auto& r) { return bytes(r.unwrap().view()) == evp(EVP_sha1(), d); }); }
    };
    switch (c.rng.below(8)) {
    case 0: case 1: both([&](auto* who, auto&& call, auto&& want) { cryptofail::failing_steps(c, who, in.size() + 2, call, want); }); break;
    case 2: both([&](auto* who, auto&& call, auto&& want) { cryptofail::failing_allocations(c, who, call, want); }); break;
    default: both([&](auto* who, auto&& call, auto&& want) {
        auto r = call();
        CHECK(r.is_ok(), "hash.error", who << " fails: " << r.unwrap_err().message());
        CHECK(want(r), "hash.value", who << " " << vf::hex(bytes(r.unwrap().view())) << " of " << d.size() << " bytes in " << in.size() << " parts");
        EV("hashes");
    });
    }
}

GROUP("P42", "server", 2500, 200000) {
    auto cls = freewebrtc::node_stun::server_stateless_class(env, "StatelessServer").unwrap();
    auto self_rv = env.construct(cls, {});
    CHECK(self_rv.is_ok(), "server.new", "constructor fails: " << self_rv.unwrap_err().message());
    js::Value self = self_rv.unwrap();
    servergen::World w = servergen::random_world(c.rng), known = w;
    w.use_default = true;
    known.users.clear();
    auto twin = std::make_unique<stun::server::Stateless>(crypto::openssl::sha1);
    js::Result<js::Value> r = self;
    unsigned steps = 4 + (unsigned)c.rng.below(20);
    for (unsigned i = 0; i < steps; ++i) {
        if (c.rng.chance(1, 3) && known.users.size() < w.users.size()) {
            auto& u = w.users[known.users.size()];
            known.users.push_back(u);
            js::Value a = jstr(text(u.name, 0)), b = jstr(text(u.key, 0));
            if (c.rng.chance(1, 4)) { // a call that fails leaves no trace
                auto args = wrong_arguments(c.rng, {a, b});
                method(cls, "addUser", self, args, &r);
                CHECK(r.is_err(), "server.adduser.arguments", "addUser accepts wrong arguments");
                EV("wrong arguments refused");
                if (c.rng.coin()) { known.users.pop_back(); continue; }
            }
            method(cls, "addUser", self, {a, b}, &r);
            CHECK(r.is_ok(), "server.adduser", "addUser fails: " << r.unwrap_err().message());
            spoil(a);
            spoil(b);
            twin->add_user(precis::OpaqueString{text(u.name, 0)}, password(u.key));
            EV("users added");
            continue;
        }
        Bytes p = servergen::random_packet(c.rng, w);
        ref::Addr from = ref::random_addr(c.rng);
        js::Value data = jbuf(p);
        std::vector<std::pair<std::string, js::Value>> ri{{"address", jstr(text(from.ip))}, {"family", jstr("IPv4")}, {"port", jnum(from.port)}, {"size", jnum((double)p.size())}};
        if (c.rng.chance(1, 6)) { // a call that must fail
            std::vector<js::Value> args{data, jobj(ri)};
            switch (c.rng.below(4)) {
            case 0: args = wrong_arguments(c.rng, args); break;
            case 1: ri[0].second = c.rng.coin() ? random_value(c.rng, Kind::string) : jstr(c.rng.one_of<std::string>({"", "1.2.3", "1.2.3.4 ", "::1::", "localhost", "1.2.3.256"})); args[1] = jobj(ri); break;
            case 2: ri[2].second = c.rng.coin() ? random_value(c.rng, Kind::number) : jnum(c.rng.one_of<double>({-1, 65536, 70000, 131072 + 80, -65535, 1e9, -2147483648.0})); args[1] = jobj(ri); break;
            default: ri.erase(ri.begin() + (c.rng.coin() ? 0 : 2)); args[1] = jobj(ri);
            }
            method(cls, "process", self, args, &r);
            CHECK(r.is_err(), "server.arguments", "process accepts " << (args.size() > 1 ? show(args[1]) : "missing arguments") << " and gives " << show(r.unwrap()));
            EV("wrong arguments refused");
            continue;
        }
        method(cls, "process", self, {data, jobj(ri)}, &r);
        spoil(data);
        c.distinct(vf::Hash().add(p).add(from.ip).add(from.port));
        ref::Decoded d = ref::decode(p);
        auto want = twin->process(endpoint(from), view(p));
        auto hx = [&] { return vf::hex(p) + " from " + lib::show(from); };
        if (auto* ig = std::get_if<servergen::Server::Ignore>(&want)) {
            if (unspecified(d)) { EV("not specified"); continue; }
            if (ig->message.is_some() && !binding(d)) { EV("other methods"); continue; } // no name for the method: refused today
            CHECK(r.is_ok(), "server.ignored", "error for a packet that is ignored: " << r.unwrap_err().message() << " " << hx());
            O o;
            o.set("result", str("ignore"));
            if (ig->message.is_some()) { o.set("message", want_message(d)); EV("ignored messages reported"); }
            CHECK(show(r.unwrap()) == std::string(o), "server.ignored.content", show(r.unwrap()) << " instead of " << std::string(o) << " for " << hx());
            EV("packets ignored");
        } else if (auto* rs = std::get_if<servergen::Server::Respond>(&want)) {
            auto b = rs->response.build(rs->maybe_integrity);
            CHECK(b.is_ok(), "build", "twin does not build");
            std::string o = O().set("result", str("respond")).set("data", buf(b.unwrap()));
            CHECK(r.is_ok(), "server.respond", "error instead of a response: " << r.unwrap_err().message() << " " << hx());
            CHECK(show(r.unwrap()) == o, "server.respond.content", show(r.unwrap()) << " instead of " << o << " for " << hx());
            vf::ev(std::string("responses of class ") + num(ref::cls_of((uint16_t)ref::get16(b.unwrap().data()))));
            c.sample(o);
        }
    }
    // Other objects are not servers.
    if (c.rng.chance(1, 10)) {
        for (auto& v : {random_value(c.rng, Kind::function), jobj({})}) {
            for (auto& [name, f] : cls.ref()->methods) {
                r = env.call(f, v, {jbuf(Bytes(20)), jobj({{"address", jstr("1.2.3.4")}, {"port", jnum(1)}})});
                CHECK(r.is_err(), "server.this", name << " works on " << show(v));
                r = env.call(f, v, {jstr("a"), jstr("b")});
                CHECK(r.is_err(), "server.this", name << " works on " << show(v));
                EV("other objects refused");
            }
        }
    }
}

namespace {

using Client = stun::ClientUDP;

std::string want_effect(const Client::Effect& e, const std::map<unsigned, ref::Decoded>& responses, vf::Ctx&) {
    using F = Client::TransactionFailed;
    if (auto* s = std::get_if<Client::SendData>(&e)) { return O().set("type", str("send_data")).set("message", buf(bytes(s->message_view))); }
    if (auto* k = std::get_if<Client::TransactionOk>(&e)) {
        O o;
        auto it = responses.find(k->handle.value);
        o.set("type", str("transaction_ok")).set("result", O().set("addr", str(k->result.address.to_string().unwrap())).set("port", num(k->result.port.value())));
        o.set("response", it != responses.end() ? want_message(it->second) : "?");
        if (k->round_trip.is_some()) { o.set("rtt_us", num(k->round_trip.unwrap().count())); }
        return o;
    }
    if (auto* f = std::get_if<F>(&e)) {
        std::string why;
        if (std::holds_alternative<F::UnknownComprehensionRequiredAttribute>(f->reason)) { why = "unknown comprehension required attribute"; }
        else if (std::holds_alternative<F::UnknownAttributeReported>(f->reason)) { why = "unknown required attribute reported"; }
        else if (std::holds_alternative<F::AlternateServer>(f->reason)) { why = "alternate server"; }
        else if (auto* x = std::get_if<F::ErrorCode>(&f->reason)) { why = "stun error: " + num(x->attr.code) + ": " + x->attr.reason_phrase.value_or(""); }
        else if (auto* y = std::get_if<F::Error>(&f->reason)) { why = "error: " + y->code.message(); }
        else { why = "timeout"; }
        return O().set("type", str("transaction_fail")).set("handle", O().set("value", num(f->handle.value))).set("reason", str(why));
    }
    if (auto* s = std::get_if<Client::Sleep>(&e)) { return O().set("type", str("sleep")).set("timeout_ms", num((s->sleep.count() + 999) / 1000)); }
    return O().set("type", str("idle"));
}

}

GROUP("P42", "client", 1500, 100000) {
    virtual_ns = (int64_t)c.rng.below(1ull << 50);
    struct Back { ~Back() { virtual_ns = -1; } } back;
    auto cls = freewebrtc::node_stun::client_udp_class(env, "ClientUDP").unwrap();
    bool given = c.rng.coin(), fp = !given || c.rng.coin();
    js::Result<js::Value> r = js::Value();
    if (c.rng.chance(1, 8)) {
        auto bad = c.rng.coin() ? wrong_arguments(c.rng, {jobj({})}) : std::vector<js::Value>{jobj({{"use_fingerprint", c.rng.coin() ? jnum(1) : jstr("true")}})};
        bool object = !bad.empty() && bad[0].as_object().is_ok() && bad[0].ref()->props.count("use_fingerprint") == 0;
        r = env.construct(cls, bad);
        CHECK(r.is_err() || object, "client.new.arguments", "constructor accepts " << (bad.empty() ? "nothing" : show(bad[0])));
        if (!object) { EV("wrong arguments refused"); }
    }
    r = env.construct(cls, {given ? jobj({{"use_fingerprint", jbool(fp)}, {"other", jnum(1)}}) : jobj({})});
    CHECK(r.is_ok(), "client.new", "constructor fails: " << r.unwrap_err().message());
    js::Value self = r.unwrap();
    cl::Settings st;
    Client::Settings settings;
    settings.use_fingerprint = Client::Settings::UseFingerprint{fp};
    Client twin(settings);
    cl::Words words;
    std::vector<cl::Txn> txns;
    std::map<unsigned, ref::Decoded> responses; // by handle
    std::vector<Bytes> sent;
    std::string log;
    vf::Hash h;
    int64_t sleep_ms = -1;

    auto next = [&] { method(cls, "next", self, {}, &r); CHECK(r.is_ok(), "client.next", "next fails: " << r.unwrap_err().message()); return r.unwrap(); };
    // Both clients until they have nothing to do.
    auto poll = [&] {
        for (unsigned n = 0; n < 1000; ++n) {
            js::Value got = next();
            auto e = twin.next(clock::steady_clock_now());
            std::string w = want_effect(e, responses, c), g = show(got);
            bool skip = w.find("?") != std::string::npos;
            CHECK(skip || g == w, "client.effect", g << " instead of " << w << " after " << log);
            h.add(w);
            log += w.substr(0, 60) + "; ";
            if (log.size() > 2000) { log = log.substr(1000); }
            if (std::holds_alternative<Client::Sleep>(e)) { sleep_ms = (int64_t)got.ref()->props["timeout_ms"]->number; EV("sleeps"); return; }
            if (std::holds_alternative<Client::Idle>(e)) { sleep_ms = -1; EV("idle"); return; }
            if (std::holds_alternative<Client::SendData>(e)) { sent.push_back(got.ref()->props["message"]->buffer); EV("data to send"); }
            if (auto* ok = std::get_if<Client::TransactionOk>(&e)) { if (ok->round_trip.is_some()) { EV("round trips reported"); } EV("successes"); for (auto& t : txns) { if (t.handle == ok->handle.value) { t.ended = 1; } } }
            if (auto* f = std::get_if<Client::TransactionFailed>(&e)) { vf::ev("failed: " + std::to_string(f->reason.index())); for (auto& t : txns) { if (t.handle == f->handle.value) { t.ended = 1; } } }
        }
        CHECK(false, "client.busy", "the client never stops");
    };
    auto live = [&] { std::vector<size_t> v; for (size_t i = 0; i < txns.size(); ++i) { if (txns[i].live()) { v.push_back(i); } } return v; };
    auto create = [&] {
        cl::TxSpec spec;
        spec.path = cl::random_path(c.rng);
        cl::random_auth(c.rng, spec);
        js::Value src = jstr(text(spec.path.source)), dst = jstr(text(spec.path.target)), name = jstr(text(spec.name, 0)), key = jstr(text(spec.key, 0));
        std::vector<std::pair<std::string, js::Value>> rq{{"source", src}, {"target", dst}};
        if (spec.auth) { rq.push_back({"auth", jobj({{"username", name}, {"password", key}})}); }
        if (c.rng.chance(1, 5)) { // a call that fails leaves no trace
            auto bad = rq;
            std::vector<js::Value> args;
            switch (c.rng.below(4)) {
            case 0: args = wrong_arguments(c.rng, {jobj(bad)}); break;
            case 1: { auto& x = bad[c.rng.below(2)]; x.second = c.rng.coin() ? random_value(c.rng, Kind::string) : jstr(c.rng.one_of<std::string>({"", "1.2.3", "1.2.3.4:80", "host", "::1%1", "[::1]"})); args = {jobj(bad)}; break; }
            case 2: bad.erase(bad.begin() + (long)c.rng.below(2)); args = {jobj(bad)}; break;
            default: {
                auto wrong = random_value(c.rng, Kind::string);
                js::Value a = c.rng.chance(1, 3) ? jobj({{"username", name}}) : c.rng.coin() ? jobj({{"username", wrong}, {"password", key}}) : jobj({{"username", name}, {"password", wrong}});
                if (c.rng.chance(1, 4)) { a = jstr("auth"); }
                bad.resize(2);
                bad.push_back({"auth", a});
                args = {jobj(bad)};
            }
            }
            method(cls, "create", self, args, &r);
            CHECK(r.is_err(), "client.arguments", "create accepts " << (args.empty() ? "nothing" : show(args[0])));
            EV("wrong arguments refused");
        }
        method(cls, "create", self, {jobj(rq)}, &r);
        CHECK(r.is_ok(), "client.create", "create fails: " << r.unwrap_err().message());
        for (auto& v : {src, dst, name, key}) { spoil(v); }
        auto hv = r.unwrap().ref()->props["value"];
        CHECK(r.unwrap().ref()->kind == Kind::object && hv && hv->kind == Kind::number, "client.handle", "handle is " << show(r.unwrap()));
        // The id is in what is sent: the twin gets the same.
        js::Value got = next();
        CHECK(got.ref()->props["type"] && got.ref()->props["type"]->string == "send_data", "client.first", "a new request is not sent but " << show(got));
        Bytes p = got.ref()->props["message"]->buffer;
        CHECK(p.size() >= 20, "client.first.size", "request of " << p.size() << " bytes");
        Bytes tid(p.begin() + 8, p.begin() + 20);
        for (auto& t : txns) { CHECK(t.tid != tid, "client.id", "id " << vf::hex(tid) << " is used again"); }
        words.next.resize(3);
        words.pos = 0;
        std::memcpy(words.next.data(), tid.data(), 12);
        Client::Request q{cl::path(spec.path), {}, {}};
        if (spec.auth) { q.maybe_auth = Client::Auth{precis::OpaqueString{text(spec.name, 0)}, integrity(spec.key)}; }
        auto hr = twin.create(words, clock::steady_clock_now(), std::move(q));
        CHECK(hr.is_ok(), "twin", "twin fails");
        CHECK(hv->number == hr.unwrap().value, "client.handle.value", "handle " << hv->number << " instead of " << hr.unwrap().value);
        auto e = twin.next(clock::steady_clock_now());
        std::string w = want_effect(e, responses, c);
        CHECK(show(got) == w, "client.effect", show(got) << " instead of " << w);
        sent.push_back(p);
        cl::Txn t;
        t.handle = hr.unwrap().value;
        t.tid = tid;
        t.spec = spec;
        txns.push_back(t);
        responses.erase(t.handle);
        EV("transactions");
        if (spec.auth) { EV("transactions with credentials"); }
    };
    unsigned steps = 8 + (unsigned)c.rng.below(50);
    if (c.idx % 50 == 7) { // very many of them
        for (unsigned n = 130 + (unsigned)c.rng.below(200); n > 0; --n) { poll(); create(); }
        steps += 100;
        EV("crowds");
    }
    for (unsigned i = 0; i < steps; ++i) {
        auto l = live();
        switch (c.rng.below(6)) {
        case 0: poll(); if (txns.size() < 20) { create(); } break;
        case 1: case 2: { // a packet comes in
            if (txns.empty()) { break; }
            Bytes p;
            bool any = c.rng.chance(1, 5) || l.empty();
            cl::Txn& t = txns[any ? c.rng.below(txns.size()) : c.rng.pick(l)];
            switch (c.rng.below(8)) {
            case 0: p = c.rng.bytes(c.rng.below(60)); break;
            case 1: { auto q = cl::success_reply(t, ref::random_addr(c.rng)); q.key.push_back(1); p = q.bytes(); break; }
            case 2: if (!sent.empty()) { p = c.rng.pick(sent); } break;
            case 3: p = cl::success_reply(t, ref::random_addr(c.rng)).bytes(); break;
            default: p = cl::random_reply(c.rng, t).bytes();
            }
            ref::Decoded d = ref::decode(p);
            if (unspecified(d)) { break; }
            // A success whose method has no name cannot be reported.
            if (d.ok && d.cls() == 2 && !binding(d)) { break; }
            js::Value arg = jbuf(p);
            method(cls, "response", self, {arg}, &r);
            spoil(arg);
            CHECK(r.is_ok() && r.unwrap().ref()->kind == Kind::undefined, "client.response", "response() gives " << (r.is_ok() ? show(r.unwrap()) : r.unwrap_err().message()));
            auto tr = twin.response(clock::steady_clock_now(), view(p));
            if (tr.is_ok() && responses.count(t.handle) == 0 && d.cls() == 2) { responses[t.handle] = d; }
            EV("packets");
            break;
        }
        case 3: poll(); if (sleep_ms >= 0) { virtual_ns += sleep_ms * 1000000; } EV("slept as told"); poll(); break;
        case 4: virtual_ns += (int64_t)c.rng.below(3000000000ull); if (c.rng.coin()) { poll(); } break;
        default:
            if (c.rng.chance(1, 4)) {
                method(cls, "response", self, wrong_arguments(c.rng, {jbuf(Bytes(20))}), &r);
                CHECK(r.is_err(), "client.response.arguments", "response accepts wrong arguments");
                EV("wrong arguments refused");
            }
            virtual_ns += (int64_t)c.rng.below(300000000ull);
            poll();
        }
    }
    for (unsigned n = 0; n < 3000; ++n) { // to the end, by the sleeps
        poll();
        if (sleep_ms < 0) { break; }
        virtual_ns += sleep_ms * 1000000;
    }
    CHECK(live().empty() && sleep_ms < 0, "client.end", "the client is not done: " << log);
    c.distinct(h);
    c.sample(log.substr(0, 400));
    if (c.rng.chance(1, 10)) {
        for (auto& v : {random_value(c.rng, Kind::function), jobj({})}) {
            for (auto& [name, f] : cls.ref()->methods) {
                r = env.call(f, v, {name == "response" ? jbuf(Bytes(20)) : jobj({{"source", jstr("1.2.3.4")}, {"target", jstr("1.2.3.4")}})});
                CHECK(r.is_err(), "client.this", name << " works on " << show(v));
                EV("other objects refused");
            }
        }
    }
}
