// Stand-in for craftnapi (C++ wrapper of Node-API by the author of freewebrtc),
// which is not available offline. Values live in this process instead of in a
// JavaScript engine, so the bindings run under sanitizers and every value they
// create can be inspected. Conversions follow Node-API: a value of another kind
// is an error, numbers become int32 as napi_get_value_int32 does.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <typeinfo>
#include <vector>

#include <craftpp/core.hpp>
#include <craftpp/binary/const_view.hpp>
#include <craftnapi/error.hpp>

namespace craftnapi {

template<typename T> using Result = craftpp::result::Result<T>;
template<typename T> using Maybe = craftpp::maybe::Maybe<T>;
using craftpp::maybe::None;
class Env;
class Object;
class Value;
struct CallbackInfo;
using Function = std::function<Result<Value>(Env&, const CallbackInfo&)>;

namespace details {

enum class Kind { undefined, null, boolean, number, bigint, string, buffer, object, array, function };

struct Cell {
    Kind kind = Kind::undefined;
    bool boolean = false;
    double number = 0;
    uint64_t bigint = 0;
    std::string string;
    std::vector<uint8_t> buffer;
    std::map<std::string, std::shared_ptr<Cell>> props;
    std::vector<std::shared_ptr<Cell>> items;
    Function function;
    std::map<std::string, Function> methods; // of a class
    std::shared_ptr<void> wrapped;
    const std::type_info* wrapped_type = nullptr;
};
using Ref = std::shared_ptr<Cell>;

inline Ref make(Kind k) {
    auto c = std::make_shared<Cell>();
    c->kind = k;
    return c;
}

}

class Value {
public:
    Value() : m_ref(details::make(details::Kind::undefined)) {}
    explicit Value(details::Ref r) : m_ref(std::move(r)) {}

    Result<Object> as_object() const;
    Result<std::string> as_string() const {
        if (m_ref->kind != details::Kind::string) { return Error::string_expected; }
        return m_ref->string;
    }
    Result<craftpp::binary::ConstView> as_buffer() const {
        if (m_ref->kind != details::Kind::buffer) { return Error::invalid_arg; }
        return craftpp::binary::ConstView(m_ref->buffer.data(), m_ref->buffer.size());
    }
    Result<bool> as_boolean() const {
        if (m_ref->kind != details::Kind::boolean) { return Error::boolean_expected; }
        return m_ref->boolean;
    }
    Result<double> as_double() const {
        if (m_ref->kind != details::Kind::number) { return Error::number_expected; }
        return m_ref->number;
    }
    Result<int32_t> as_int32() const {
        if (m_ref->kind != details::Kind::number) { return Error::number_expected; }
        double d = m_ref->number;
        if (!std::isfinite(d)) { return int32_t(0); }
        double m = std::fmod(std::trunc(d), 4294967296.0);
        if (m < 0) { m += 4294967296.0; }
        return int32_t(uint32_t(m));
    }
    Result<uint32_t> as_uint32() const {
        auto r = as_int32();
        if (r.is_err()) { return r.unwrap_err(); }
        return uint32_t(r.unwrap());
    }
    static Result<Object> to_object(const Value&);
    static Result<std::string> to_string(const Value& v) { return v.as_string(); }
    static Result<craftpp::binary::ConstView> to_buffer(const Value& v) { return v.as_buffer(); }

    template<typename T>
    Result<std::reference_wrapper<T>> unwrap() const {
        if (m_ref->kind != details::Kind::object) { return Error::object_expected; }
        if (m_ref->wrapped == nullptr || *m_ref->wrapped_type != typeid(T)) { return Error::invalid_arg; }
        return std::ref(*static_cast<T*>(m_ref->wrapped.get()));
    }
    const details::Ref& ref() const { return m_ref; }
private:
    details::Ref m_ref;
};

class Object {
public:
    explicit Object(details::Ref r) : m_ref(std::move(r)) {}
    Result<Value> named_property(std::string_view name) const {
        auto it = m_ref->props.find(std::string(name));
        return it == m_ref->props.end() ? Value() : Value(it->second);
    }
    Result<Maybe<Value>> maybe_named_property(std::string_view name) const {
        auto it = m_ref->props.find(std::string(name));
        if (it == m_ref->props.end() || it->second->kind == details::Kind::undefined) { return Maybe<Value>{None{}}; }
        return Maybe<Value>{Value(it->second)};
    }
    template<typename T>
    Result<Value> wrap(std::unique_ptr<T>&& p) const {
        if (m_ref->wrapped != nullptr) { return Error::invalid_arg; }
        m_ref->wrapped = std::shared_ptr<void>(p.release(), [](void* v) { delete static_cast<T*>(v); });
        m_ref->wrapped_type = &typeid(T);
        return to_value();
    }
    Value to_value() const { return Value(m_ref); }
    static Value fmap_to_value(const Object& o) { return o.to_value(); }
    const details::Ref& ref() const { return m_ref; }
private:
    details::Ref m_ref;
};

inline Result<Object> Value::as_object() const {
    using K = details::Kind;
    if (m_ref->kind != K::object && m_ref->kind != K::array && m_ref->kind != K::buffer && m_ref->kind != K::function) { return Error::object_expected; }
    return Object(m_ref);
}
inline Result<Object> Value::to_object(const Value& v) { return v.as_object(); }

struct CallbackInfo {
    Value this_arg;
    std::vector<Value> args;
    Result<Value> operator[](size_t i) const {
        if (i >= args.size()) { return Error::no_argument; }
        return args[i];
    }
};

// Value of a property given to create_object: a value, an object, nothing, or a failure of those.
class PropertyValue {
public:
    PropertyValue(None) {}
    PropertyValue(const Value& v) : m_v(Result<Value>(v)) {}
    PropertyValue(const Object& v) : m_v(Result<Value>(v.to_value())) {}
    PropertyValue(const Result<Value>& v) : m_v(v) {}
    PropertyValue(const Result<Object>& v) : m_v(v.fmap(Object::fmap_to_value)) {}
    template<typename T>
    PropertyValue(const Maybe<T>& v) {
        if (v.is_some()) { *this = PropertyValue(v.unwrap()); }
    }
    const Maybe<Result<Value>>& get() const { return m_v; }
private:
    Maybe<Result<Value>> m_v = None{};
};

class Env {
public:
    using Property = std::pair<std::string_view, PropertyValue>;
    struct Method {
        std::string_view name;
        Function function;
    };
    Result<Value> create_undefined() const { return Value(); }
    Result<Value> create_null() const { return Value(details::make(details::Kind::null)); }
    Result<Value> create_boolean(bool v) const { auto c = details::make(details::Kind::boolean); c->boolean = v; return Value(c); }
    Result<Value> create_int32(int32_t v) const { return number(v); }
    Result<Value> create_uint32(uint32_t v) const { return number(v); }
    Result<Value> create_double(double v) const { return number(v); }
    Result<Value> create_bigint_uint64(uint64_t v) const { auto c = details::make(details::Kind::bigint); c->bigint = v; return Value(c); }
    Result<Value> create_string(std::string_view v) const { auto c = details::make(details::Kind::string); c->string = v; return Value(c); }
    Result<Value> create_buffer(const craftpp::binary::ConstView& v) const {
        auto c = details::make(details::Kind::buffer);
        c->buffer.assign(v.begin(), v.end());
        c->buffer.shrink_to_fit();
        return Value(c);
    }
    Result<Object> create_object(std::initializer_list<Property> props = {}) const {
        auto c = details::make(details::Kind::object);
        for (auto& [name, v] : props) {
            if (v.get().is_none()) { continue; }
            auto& r = v.get().unwrap();
            if (r.is_err()) { return r.unwrap_err().add_context(name, "property"); }
            c->props[std::string(name)] = r.unwrap().ref();
        }
        return Object(c);
    }
    template<typename Range, typename F>
    Result<Value> create_array(const Range& range, F&& f) const {
        auto c = details::make(details::Kind::array);
        for (auto& x : range) {
            Result<Value> r = f(x);
            if (r.is_err()) { return r; }
            c->items.push_back(r.unwrap().ref());
        }
        return Value(c);
    }
    Result<Value> create_function(Function f) const {
        auto c = details::make(details::Kind::function);
        c->function = std::move(f);
        return Value(c);
    }
    Result<Value> create_class(std::string_view name, Function ctor, std::initializer_list<Method> methods) const {
        auto c = details::make(details::Kind::function);
        c->string = name;
        c->function = std::move(ctor);
        for (auto& m : methods) { c->methods[std::string(m.name)] = m.function; }
        return Value(c);
    }
    // What JavaScript does.
    Result<Value> call(const Function& f, Value self, std::vector<Value> args) {
        CallbackInfo info{std::move(self), std::move(args)};
        return f(*this, info);
    }
    Result<Value> construct(const Value& cls, std::vector<Value> args) {
        Value self(details::make(details::Kind::object));
        auto r = call(cls.ref()->function, self, std::move(args));
        if (r.is_err()) { return r; }
        return self;
    }
private:
    static Result<Value> number(double v) { auto c = details::make(details::Kind::number); c->number = v; return Value(c); }
};

}
