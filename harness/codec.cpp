// P04: message types and attribute types.
#include <unordered_map>
#include <unordered_set>
#include "common.hpp"
#include "stun/stun_class.hpp"
#include "stun/stun_method.hpp"
#include "stun/stun_attribute_type.hpp"

using namespace freewebrtc::stun;

namespace {

// The figure 3 of RFC 5389, bit by bit: place of each bit of the method.
constexpr unsigned METHOD_BIT[12] = {0, 1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 13};
constexpr unsigned CLASS_BIT[2] = {4, 8};

uint16_t ref_type(unsigned cls, unsigned method) {
    unsigned t = 0;
    for (unsigned i = 0; i < 12; ++i) { if (method >> i & 1) { t |= 1u << METHOD_BIT[i]; } }
    for (unsigned i = 0; i < 2; ++i) { if (cls >> i & 1) { t |= 1u << CLASS_BIT[i]; } }
    return (uint16_t)t;
}

Class named(unsigned c) {
    switch (c) {
    case 0: return Class::request();
    case 1: return Class::indication();
    case 2: return Class::success_response();
    default: return Class::error_response();
    }
}
const Class::Value VALUES[4] = {Class::REQUEST, Class::INDICATION, Class::SUCCESS_RESPONSE, Class::ERROR_RESPONSE};

}

// Each message type: 16 cases of 1024 types.
GROUP("P04", "types", 16, 16) {
    for (unsigned i = 0; i < 1024; ++i) {
        uint16_t t = (uint16_t)(c.idx * 1024 + i);
        Class k = Class::from_msg_type(t);
        Method m = Method::from_msg_type(t);
        unsigned cls = (t >> 4 & 1) | (t >> 8 & 1) << 1;
        CHECK(k == named(cls) && k.value() == VALUES[cls], "class.decode", "type " << t << " has class " << k.value());
        CHECK((k.to_msg_type() | m.to_msg_type()) == t, "type.roundtrip", "type " << t << " is encoded as " << k.to_msg_type() << "|" << m.to_msg_type());
        CHECK((k.to_msg_type() & m.to_msg_type()) == 0, "type.overlap", "type " << t);
        CHECK(k.to_msg_type() == ref_type(cls, 0) && m.to_msg_type() == (t & ~0x0110), "type.bits", "type " << t);
        for (unsigned o = 0; o < 4; ++o) {
            CHECK((k == named(o)) == (o == cls), "class.equal", "type " << t << " and class " << o);
            CHECK((k != named(o)) == (o != cls), "class.equal", "type " << t << " and class " << o);
        }
        CHECK((m == Method::binding()) == ((t & ~0x0110) == 1), "method.binding", "type " << t);
        Method m2(m);
        CHECK(m2 == m && !(m2 != m), "method.equal", "type " << t);
        Class k2(k);
        k2 = named((cls + 1) % 4);
        CHECK(k2 != k && k2 == named((cls + 1) % 4), "class.assign", "type " << t);
        EV("types decoded");
        c.distinct(vf::Hash().add(t));
    }
}

// Each class and method.
GROUP("P04", "encode", 16, 16) {
    for (unsigned i = 0; i < 256; ++i) {
        unsigned method = (unsigned)(c.idx * 256 + i);
        Method m = Method::from_msg_type(ref_type(0, method));
        CHECK(m.to_msg_type() == ref_type(0, method), "method.encode", "method " << method << " is encoded as " << m.to_msg_type());
        for (unsigned cls = 0; cls < 4; ++cls) {
            uint16_t t = ref_type(cls, method);
            CHECK(named(cls).to_msg_type() == ref_type(cls, 0), "class.encode", "class " << cls << " is encoded as " << named(cls).to_msg_type());
            CHECK((named(cls).to_msg_type() | m.to_msg_type()) == t, "encode", "class " << cls << " method " << method);
            CHECK(Class::from_msg_type(t) == named(cls), "encode.class", "class " << cls << " method " << method);
            CHECK(Method::from_msg_type(t) == m, "encode.method", "class " << cls << " method " << method);
            EV("types encoded");
            c.distinct(vf::Hash().add(cls).add(method).add(1));
        }
        // Other methods are other methods.
        for (unsigned k = 0; k < 12; ++k) {
            Method o = Method::from_msg_type(ref_type(c.rng.below(4), method ^ 1u << k));
            CHECK(o != m && !(o == m), "method.distinct", "methods " << method << " and " << (method ^ 1u << k));
        }
        unsigned other = (unsigned)c.rng.below(4096);
        Method o = Method::from_msg_type(ref_type(c.rng.below(4), other));
        CHECK((o == m) == (other == method), "method.distinct", "methods " << method << " and " << other);
    }
}

GROUP("P04", "named", 1, 1) {
    CHECK(Method::binding().to_msg_type() == 1 && Method::binding() == Method::from_msg_type(0x0101), "method.binding", "binding is " << Method::binding().to_msg_type());
    CHECK((Class::request().to_msg_type() | Method::binding().to_msg_type()) == 0x0001, "binding.request", "");
    CHECK((Class::indication().to_msg_type() | Method::binding().to_msg_type()) == 0x0011, "binding.indication", "");
    CHECK((Class::success_response().to_msg_type() | Method::binding().to_msg_type()) == 0x0101, "binding.success", "");
    CHECK((Class::error_response().to_msg_type() | Method::binding().to_msg_type()) == 0x0111, "binding.error", "");
    c.distinct(1);
    c.sample("binding request 0x0001, indication 0x0011, success 0x0101, error 0x0111");
}

// Attribute types: all values.
GROUP("P04", "attribute", 64, 64) {
    std::unordered_map<AttributeType, uint16_t> map;
    std::hash<AttributeType> h;
    for (unsigned i = 0; i < 1024; ++i) {
        uint16_t v = (uint16_t)(c.idx * 1024 + i);
        AttributeType a = AttributeType::from_uint16(v), b = AttributeType::from_uint16(v);
        CHECK(a.value() == v, "attribute.value", v << " became " << a.value());
        CHECK(a.is_comprehension_required() == (v < 0x8000), "attribute.comprehension", v);
        CHECK(a == b && h(a) == h(b), "attribute.equal", v);
        for (unsigned k = 0; k < 16; ++k) {
            AttributeType o = AttributeType::from_uint16((uint16_t)(v ^ 1u << k));
            CHECK(!(a == o), "attribute.distinct", v << " and " << o.value());
        }
        uint16_t w = (uint16_t)c.rng.u32();
        CHECK((a == AttributeType::from_uint16(w)) == (v == w), "attribute.distinct", v << " and " << w);
        map.emplace(a, v);
        EV("attribute types");
        c.distinct(vf::Hash().add(v).add(2));
    }
    CHECK(map.size() == 1024, "attribute.map", map.size());
    for (auto& [k, v] : map) { CHECK(k.value() == v, "attribute.map", v); }
    for (unsigned i = 0; i < 1024; ++i) {
        uint16_t v = (uint16_t)(c.idx * 1024 + i);
        auto it = map.find(AttributeType::from_uint16(v));
        CHECK(it != map.end() && it->second == v, "attribute.map", v);
    }
    // Not collapsed to few hash values.
    std::unordered_set<size_t> hs;
    for (auto& [k, v] : map) { hs.insert(h(k)); }
    CHECK(hs.size() > 512, "attribute.hash", "1024 types have " << hs.size() << " hashes");
}
