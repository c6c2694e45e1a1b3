// P36: error families.
#include <openssl/err.h>
#include <openssl/evp.h>
#include <cerrno>
#include <set>
#include <thread>
#include "common.hpp"
#include "stun/stun_error.hpp"
#include "net/net_error.hpp"
#include "rtp/rtp_error.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
#include "crypto/openssl/openssl_error.hpp"
#include "node/node_stun/node_stun_error.hpp"
#include "util/util_error_code.hpp"
#include "util/util_token_stream.hpp"
#include "node/openssl/node_openssl_error.hpp"

namespace {

struct Code { std::error_code ec; std::string name; std::vector<std::string> words; };
struct Family {
    const char* name;
    std::vector<Code> codes; // [0] is ok
    std::function<std::error_code(int)> make;
};

std::string lower(std::string s) { for (auto& ch : s) { ch = (char)std::tolower((unsigned char)ch); } return s; }

template<typename E>
Family family(const char* name, std::vector<std::tuple<E, const char*, std::vector<std::string>>> l) {
    Family f{name, {}, [](int v) { return make_error_code((E)v); }};
    for (auto& [e, n, w] : l) { f.codes.push_back(Code{make_error_code(e), n, w}); }
    return f;
}

#define C(e, ...) {E::e, #e, {__VA_ARGS__}}
// Codes with words that the message has in common with the meaning of the code:
// messages that changed places are then seen.
std::vector<Family> families() {
    std::vector<Family> r;
    {
        using E = freewebrtc::stun::ParseError;
        r.push_back(family<E>("stun parse", {
            C(ok, "success"), C(invalid_message_size, "message", "size"), C(not_padded_attributes, "padded"), C(invalid_message_len, "message", "len"),
            C(invalid_magic_cookie, "cookie"), C(invalid_attr_size, "attr", "size"), C(invalid_mapped_addr, "mapped"), C(invalid_xor_mapped_addr, "xor"),
            C(invalid_ipv4_address_size, "ipv4"), C(invalid_ipv6_address_size, "ipv6"), C(integrity_digest_size, "integrity"), C(fingerprint_crc_size, "fingerprint", "size"),
            C(fingerprint_is_not_last, "fingerprint", "last"), C(fingerprint_not_valid, "fingerprint", "valid"), C(priority_attribute_size, "priority"),
            C(ice_controlled_size, "controlled"), C(ice_controlling_size, "controlling"), C(use_candidate_size, "candidate"), C(error_code_attribute_size, "error code"),
            C(unknown_attributes_attribute_size, "unknown attributes"), C(unknown_addr_family, "family"), C(invalid_message_type, "type")}));
    }
    {
        using E = freewebrtc::stun::ClientError;
        r.push_back(family<E>("stun client", {
            C(ok, "success"), C(no_integrity_attribute_in_response, "no", "integrity"), C(digest_is_not_valid, "digest", "not valid"), C(transaction_not_found, "transaction", "not found"),
            C(no_address_in_response, "no address"), C(no_error_code_in_response, "no error code"), C(no_alternate_server_in_response, "no alternate server")}));
    }
    {
        using E = freewebrtc::net::Error;
        r.push_back(family<E>("net", {
            C(ok, "success"), C(invalid_address_size, "size", "address"), C(ip_address_parse_error, "parse", "ip"), C(fqdn_invalid_label_expect_letter, "fqdn", "label"),
            C(fqdn_not_fully_parsed, "fqdn", "parsed"), C(invalid_port_value, "port")}));
    }
    {
        using E = freewebrtc::rtp::Error;
        r.push_back(family<E>("rtp", {
            C(ok, "success"), C(packet_is_too_short, "short"), C(unknown_packet_version, "version"), C(invalid_payload_type, "payload type"), C(unknown_rtp_clock, "clock"),
            C(invalid_extension_length, "extension"), C(invalid_packet_padding, "padding")}));
    }
    {
        using E = freewebrtc::ice::candidate::Error;
        r.push_back(family<E>("ice candidate", {
            C(ok, "success"), C(invalid_attr_prefix, "prefix"), C(invalid_candidate_parts_number, "number"), C(candidate_type_absent, "type", "absent"), C(unknown_candidate_type, "type", "unknown"),
            C(invalid_foundation_length, "foundation", "length"), C(invalid_foundation_char, "foundation", "char"), C(invalid_component_id_length, "component", "length"),
            C(invalid_component_id_char, "component", "char"), C(invalid_component_id_value, "component", "value"), C(unknown_transport_type, "transport"),
            C(invalid_priority_length, "priority", "length"), C(invalid_priority_value, "priority", "value"), C(invalid_type_preference_value, "type preference"),
            C(invalid_component_preference_value, "component preference"), C(invalid_local_preference_value, "local preference")}));
    }
    {
        using E = freewebrtc::node_stun::Error;
        r.push_back(family<E>("node stun", {
            C(ok, "success"), C(unknown_stun_method, "method"), C(unknown_stun_class, "class"), C(invalid_ip_address, "ip"), C(invalid_port_number, "port")}));
    }
    {
        using E = freewebrtc::util::ErrorCode;
        r.push_back(family<E>("util", {C(ok, "success"), C(value_required_in_maybe, "value", "required")}));
    }
    { // these come out of token streams only
        using T = freewebrtc::util::TokenStream;
        const std::error_category& cat = T(T::Container{}).required().unwrap_err().code().category();
        Family f{"token stream", {}, [&cat](int v) { return std::error_code(v, cat); }};
        f.codes.push_back(Code{f.make((int)T::Error::ok), "ok", {"success"}});
        f.codes.push_back(Code{f.make((int)T::Error::no_required_token), "no_required_token", {"no", "token"}});
        f.codes.push_back(Code{f.make((int)T::Error::expected_token_missed), "expected_token_missed", {"expected", "token"}});
        r.push_back(f);
    }
    return r;
}

// A message without the number of the code in it.
std::string shape(std::string m, int code) {
    std::string n = std::to_string(code);
    for (size_t p; (p = m.find(n)) != std::string::npos;) { m.replace(p, n.size(), "#"); }
    return m;
}

}

GROUP("P36", "families", 8, 8) {
    auto fs = families();
    CHECK(fs.size() == c.total, "families", "");
    const Family& f = fs[c.idx];
    const std::error_category& cat = f.codes[0].ec.category();
    std::string unknown = shape(f.make(1000003).message(), 1000003);
    CHECK(!unknown.empty(), "unknown.empty", f.name);
    std::set<std::string> messages;
    std::set<int> values;
    for (size_t i = 0; i < f.codes.size(); ++i) {
        const Code& k = f.codes[i];
        const std::string m = k.ec.message();
        auto who = [&] { return std::string(f.name) + " " + k.name + " (" + std::to_string(k.ec.value()) + ") '" + m + "'"; };
        CHECK(&k.ec.category() == &cat, "category", who() << ": another category");
        CHECK(values.insert(k.ec.value()).second, "code.distinct", who());
        CHECK(!m.empty(), "message.empty", who());
        CHECK(messages.insert(m).second, "message.distinct", who() << " is the message of another code");
        CHECK(shape(m, k.ec.value()) != unknown && m != f.make(1000003).message(), "message.unknown", who() << " is the message of unknown codes");
        CHECK((k.ec.value() == 0) == (i == 0) && (bool)k.ec == (i != 0), "zero", who());
        CHECK(cat.message(k.ec.value()) == m, "message.stable", who());
        for (auto& w : k.words) { CHECK(lower(m).find(w) != std::string::npos, "message.meaning", who() << " does not mention '" << w << "'"); }
        for (size_t j = 0; j < f.codes.size(); ++j) {
            CHECK((k.ec == f.codes[j].ec) == (i == j) && (k.ec != f.codes[j].ec) == (i != j), "equal", who() << " and " << f.codes[j].name);
        }
        for (auto& g : fs) {
            if (&g == &f) { continue; }
            for (auto& o : g.codes) {
                CHECK(k.ec != o.ec && !(k.ec == o.ec), "equal.families", who() << " equals " << g.name << " " << o.name);
            }
            CHECK(&g.codes[0].ec.category() != &cat, "category.shared", f.name << " and " << g.name << " have the same category object");
        }
        CHECK(k.ec != std::error_code(k.ec.value(), std::generic_category()) && k.ec != std::error_code(k.ec.value(), std::system_category()), "equal.std", who());
        EV("codes");
        c.distinct(vf::Hash().add(f.name).add(m));
    }
    CHECK(cat.name() != nullptr && *cat.name() != 0, "category.name", f.name);
    for (auto& g : fs) { CHECK(&g == &f || std::string(g.codes[0].ec.category().name()) != cat.name(), "category.name.distinct", f.name << " and " << g.name); }
    // Any other integer.
    auto other = [&](int v) {
        if (values.count(v)) { return; }
        std::error_code ec = f.make(v);
        std::string m = ec.message();
        CHECK(ec.value() == v && &ec.category() == &cat, "unknown.value", f.name << " " << v);
        CHECK(!m.empty() && !messages.count(m), "unknown.message", f.name << " " << v << " has the message '" << m << "' of a known code");
        CHECK((bool)ec == (v != 0), "zero", f.name << " " << v);
        EV("unknown codes");
    };
    for (int v = -300; v < 3000; ++v) { other(v); }
    for (int i = 0; i < 31; ++i) { other(1 << i); other(-(1 << i)); other((1 << i) - 1); }
    for (size_t i = 0; i < f.codes.size(); ++i) { for (int b = 5; b < 31; ++b) { other(f.codes[i].ec.value() | 1 << b); other(f.codes[i].ec.value() - 256 * (1 << ((b - 5) % 20))); } }
    for (int i = 0; i < 2000; ++i) { other((int)c.rng.u32()); }
    other(std::numeric_limits<int>::min());
    other(std::numeric_limits<int>::max());
    c.sample(std::string(f.name) + ": " + std::to_string(f.codes.size()) + " codes, unknown: '" + unknown + "'");
}

// The same category object and the same answers on every thread.
GROUP("P36", "threads", 8, 40) {
    auto fs = families();
    std::vector<std::string> bad(6);
    std::vector<std::thread> th;
    for (unsigned t = 0; t < 6; ++t) {
        th.emplace_back([&, t] {
            auto mine = families();
            for (size_t i = 0; i < fs.size(); ++i) {
                for (size_t k = 0; k < fs[i].codes.size(); ++k) {
                    const auto& a = fs[i].codes[k].ec;
                    const auto& b = mine[i].codes[k].ec;
                    if (&a.category() != &b.category() || a != b || a.message() != b.message()) { bad[t] = fs[i].codes[k].name; }
                }
            }
        });
    }
    for (auto& t : th) { t.join(); }
    for (auto& b : bad) { CHECK(b.empty(), "threads", b << " differs on another thread"); }
    EVN("threads", 6);
    c.distinct(vf::Hash().add(c.idx));
}

namespace {

std::string openssl_text(int code) {
    char b[512];
    // As unsigned long of the number, like the library does it.
    ERR_error_string_n((unsigned long)code, b, 256);
    return b;
}

template<typename F>
void openssl_family(vf::Ctx& c, const char* who, F make) {
    const std::error_category& cat = make(0).category();
    CHECK(!make(0), "openssl.zero", who);
    CHECK(cat.name() != nullptr && lower(cat.name()).find("openssl") != std::string::npos, "category.name", who << ": category " << (cat.name() ? cat.name() : "without name"));
    for (int i = 0; i < 300; ++i) {
        // Realistic numbers: library, reason; and system errors.
        int code;
        switch (c.rng.below(4)) {
        case 0: code = (int)ERR_PACK(c.rng.below(100), 0, c.rng.below(300)); break;
        case 1: code = (int)(c.rng.u32() & 0x7fffffff); break;
        case 2: code = (int)c.rng.below(200); break;
        default: code = (int)ERR_PACK(ERR_LIB_EVP, 0, 100 + c.rng.below(130)); break;
        }
        std::error_code ec = make(code);
        CHECK(ec.value() == code, "openssl.number", who << ": " << code << " became " << ec.value());
        CHECK(ec.message() == openssl_text(code), "openssl.reason", who << ": " << code << " has message '" << ec.message() << "' and not '" << openssl_text(code) << "'");
        CHECK(&ec.category() == &cat, "openssl.category", who);
        CHECK((bool)ec == (code != 0), "openssl.truth", who << ": " << code);
        CHECK(ec == make(code), "openssl.equal", who << ": " << code);
        int o = code ^ (1 << c.rng.below(31));
        CHECK(ec != make(o), "openssl.distinct", who << ": " << code << " and " << o);
        for (auto& f : families()) { CHECK(ec != f.make(code) && &f.codes[0].ec.category() != &cat, "openssl.families", who << " and " << f.name); }
        EV("openssl codes");
        c.distinct(vf::Hash().add(who).add((uint64_t)code));
    }
}

}

GROUP("P36", "openssl", 16, 400) {
    namespace a = freewebrtc::crypto::openssl;
    namespace b = freewebrtc::crypto::node_openssl;
    openssl_family(c, "openssl", [](int v) { return a::make_error_code(v); });
    openssl_family(c, "node openssl", [](int v) { return b::make_error_code(v); });
    // A real failure.
    ERR_clear_error();
    EVP_MD_CTX* ctx = EVP_MD_CTX_new();
    unsigned char out[64];
    CHECK(EVP_DigestFinal_ex(ctx, out, nullptr) != 1, "openssl.real", "");
    unsigned long e = ERR_get_error();
    EVP_MD_CTX_free(ctx);
    CHECK(a::make_error_code((int)e).message() == openssl_text((int)e), "openssl.real", a::make_error_code((int)e).message());
}
