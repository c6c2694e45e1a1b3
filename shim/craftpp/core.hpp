// Stand-in for craftpp (github.com/poroh/craftpp), written for the harnesses in
// /verif because the real library is not available offline. It implements the
// part of the API that freewebrtc uses, plus obvious neighbours, with checked
// contracts: unwrapping the wrong alternative prints CRAFTPP-CONTRACT and aborts.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <optional>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include <system_error>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include "craftpp/types/unit.hpp"

namespace craftpp {

[[noreturn]] inline void contract_violation(const char* what) {
    std::fprintf(stderr, "CRAFTPP-CONTRACT: %s\n", what);
    std::fflush(stderr);
    std::abort();
}

namespace error {

class Error {
public:
    Error(const std::error_code& ec) : m_code(ec) {}
    template<typename E>
        requires(std::is_error_code_enum_v<std::remove_cvref_t<E>>)
    Error(E e) : m_code(e) {}
    Error(const Error&) = default;
    Error(Error&&) = default;
    Error& operator=(const Error&) = default;
    Error& operator=(Error&&) = default;

    const std::error_code& code() const noexcept { return m_code; }
    const std::error_code& error_code() const noexcept { return m_code; }
    const std::error_category& category() const noexcept { return m_code.category(); }
    int value() const noexcept { return m_code.value(); }
    std::string message() const {
        std::string r;
        for (auto it = m_context.rbegin(); it != m_context.rend(); ++it) {
            r += *it;
            r += ": ";
        }
        return r + m_code.message();
    }
    const std::vector<std::string>& context() const noexcept { return m_context; }

    template<typename... Args>
    Error& add_context(const Args&... args) & { m_context.emplace_back(fmt(args...)); return *this; }
    template<typename... Args>
    Error&& add_context(const Args&... args) && { m_context.emplace_back(fmt(args...)); return std::move(*this); }
    template<typename... Args>
    Error add_context(const Args&... args) const& { Error e = *this; e.m_context.emplace_back(fmt(args...)); return e; }

    friend bool operator==(const Error& a, const Error& b) noexcept { return a.m_code == b.m_code; }
    friend bool operator==(const Error& a, const std::error_code& b) noexcept { return a.m_code == b; }
    friend std::ostream& operator<<(std::ostream& o, const Error& e) { return o << e.message(); }
private:
    template<typename... Args>
    static std::string fmt(const Args&... args) {
        std::ostringstream s;
        const char* sep = "";
        ((s << sep << args, sep = " "), ...);
        return s.str();
    }
    std::error_code m_code;
    std::vector<std::string> m_context;
};

}

namespace maybe { template<typename T> class Maybe; struct None; }
namespace result { template<typename T> class Result; }

namespace details {
template<typename T> struct is_maybe : std::false_type {};
template<typename T> struct is_maybe<maybe::Maybe<T>> : std::true_type {};
template<typename T> struct is_result : std::false_type {};
template<typename T> struct is_result<result::Result<T>> : std::true_type {};
template<typename T> inline constexpr bool is_maybe_v = is_maybe<std::remove_cvref_t<T>>::value;
template<typename T> inline constexpr bool is_result_v = is_result<std::remove_cvref_t<T>>::value;
template<typename R> struct lift { using type = std::decay_t<R>; };
template<> struct lift<void> { using type = types::Unit; };
template<typename R> using lift_t = typename lift<R>::type;
// Calls f with the arguments as they are, or, when f does not take rvalues
// (a lambda with an auto& parameter), with all of them as lvalues.
template<typename F, typename... A>
decltype(auto) call(F&& f, A&&... a) {
    if constexpr (std::is_invocable_v<F, A&&...>) {
        return std::invoke(std::forward<F>(f), std::forward<A>(a)...);
    } else {
        return std::invoke(std::forward<F>(f), a...);
    }
}
template<typename F, typename... A>
using call_t = decltype(call(std::declval<F>(), std::declval<A>()...));
template<typename F, typename... A>
auto call_lifted(F&& f, A&&... a) {
    if constexpr (std::is_void_v<call_t<F, A...>>) {
        call(std::forward<F>(f), std::forward<A>(a)...);
        return types::Unit{};
    } else {
        return call(std::forward<F>(f), std::forward<A>(a)...);
    }
}
}

namespace maybe {

struct None {
    constexpr bool operator==(const None&) const noexcept = default;
};
constexpr None none() noexcept { return None{}; }

template<typename T>
class Maybe {
public:
    using Value = T;
    Maybe() = default;
    Maybe(None) {}
    Maybe(const T& v) : m_v(v) {}
    Maybe(T&& v) : m_v(std::move(v)) {}
    template<typename U>
        requires(!std::is_same_v<std::remove_cvref_t<U>, Maybe>
                 && !std::is_same_v<std::remove_cvref_t<U>, T>
                 && !std::is_same_v<std::remove_cvref_t<U>, None>
                 && !(details::is_maybe_v<U> && !details::is_maybe_v<T>)
                 && std::is_convertible_v<U&&, T>)
    Maybe(U&& u) : m_v(std::in_place, std::forward<U>(u)) {}
    Maybe(const Maybe&) = default;
    Maybe(Maybe&&) = default;
    Maybe& operator=(const Maybe&) = default;
    Maybe& operator=(Maybe&&) = default;

    static Maybe none() { return Maybe{None{}}; }
    static Maybe move_from(T&& v) { return Maybe{std::move(v)}; }
    static Maybe copy_from(const T& v) { return Maybe{v}; }

    bool is_some() const noexcept { return m_v.has_value(); }
    bool is_none() const noexcept { return !m_v.has_value(); }
    bool has_value() const noexcept { return m_v.has_value(); }

    T& unwrap() & { need(); return *m_v; }
    const T& unwrap() const& { need(); return *m_v; }
    T&& unwrap() && { need(); return std::move(*m_v); }
    T& value() & { need(); return *m_v; }
    const T& value() const& { need(); return *m_v; }
    T&& value() && { need(); return std::move(*m_v); }

    template<typename U> T value_or(U&& d) const& { return is_some() ? T(*m_v) : T(std::forward<U>(d)); }
    template<typename U> T value_or(U&& d) && { return is_some() ? T(std::move(*m_v)) : T(std::forward<U>(d)); }
    template<typename U> T unwrap_or(U&& d) const& { return value_or(std::forward<U>(d)); }
    template<typename U> T unwrap_or(U&& d) && { return std::move(*this).value_or(std::forward<U>(d)); }
    template<typename F> T value_or_call(F&& f) const& { if (is_some()) { return *m_v; } return std::forward<F>(f)(); }
    template<typename F> T value_or_call(F&& f) && { if (is_some()) { return std::move(*m_v); } return std::forward<F>(f)(); }
    template<typename F> T unwrap_or_else(F&& f) const& { return value_or_call(std::forward<F>(f)); }
    template<typename F> T unwrap_or_else(F&& f) && { return std::move(*this).value_or_call(std::forward<F>(f)); }

    template<typename F> auto fmap(F&& f) & { return do_fmap(*this, std::forward<F>(f)); }
    template<typename F> auto fmap(F&& f) const& { return do_fmap(*this, std::forward<F>(f)); }
    template<typename F> auto fmap(F&& f) && { return do_fmap(std::move(*this), std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) & { return do_bind(*this, std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) const& { return do_bind(*this, std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) && { return do_bind(std::move(*this), std::forward<F>(f)); }

    template<typename F> Maybe& with_inner(F&& f) & { if (is_some()) { std::invoke(std::forward<F>(f), *m_v); } return *this; }
    template<typename F> const Maybe& with_inner(F&& f) const& { if (is_some()) { std::invoke(std::forward<F>(f), *m_v); } return *this; }
    template<typename F> Maybe&& with_inner(F&& f) && { if (is_some()) { std::invoke(std::forward<F>(f), std::move(*m_v)); } return std::move(*this); }

    result::Result<T> require() const&;
    result::Result<T> require() &&;
    result::Result<T> require(const error::Error&) const&;
    result::Result<T> require(const error::Error&) &&;

    friend bool operator==(const Maybe& a, const Maybe& b) requires(requires(const T& x) { { x == x } -> std::convertible_to<bool>; }) {
        return a.is_some() == b.is_some() && (a.is_none() || *a.m_v == *b.m_v);
    }
    friend bool operator==(const Maybe& a, const None&) { return a.is_none(); }
private:
    void need() const { if (!m_v.has_value()) { contract_violation("unwrap of an empty Maybe"); } }
    template<typename S, typename F>
    static auto do_fmap(S&& s, F&& f) {
        using A = decltype((*std::forward<S>(s).m_v));
        using R = Maybe<details::lift_t<details::call_t<F, A>>>;
        if (s.is_none()) {
            return R{None{}};
        }
        return R::wrap(details::call_lifted(std::forward<F>(f), *std::forward<S>(s).m_v));
    }
    template<typename S, typename F>
    static auto do_bind(S&& s, F&& f) {
        using A = decltype((*std::forward<S>(s).m_v));
        using R = std::remove_cvref_t<details::call_t<F, A>>;
        static_assert(details::is_maybe_v<R>, "Maybe::bind needs a function returning Maybe");
        if (s.is_none()) {
            return R{None{}};
        }
        return R(details::call(std::forward<F>(f), *std::forward<S>(s).m_v));
    }
    template<typename> friend class Maybe;
    template<typename U> static Maybe wrap(U&& u) { Maybe m; m.m_v.emplace(std::forward<U>(u)); return m; }
    std::optional<T> m_v;
};

}

namespace result {

struct OkTag {};
struct ErrTag {};

template<typename T>
class Result {
public:
    using Value = T;
    using Error = error::Error;

    Result(const T& v) : m_v(std::in_place_index<0>, v) {}
    Result(T&& v) : m_v(std::in_place_index<0>, std::move(v)) {}
    Result(const Error& e) : m_v(std::in_place_index<1>, e) {}
    Result(Error&& e) : m_v(std::in_place_index<1>, std::move(e)) {}
    Result(const std::error_code& e) : m_v(std::in_place_index<1>, e) {}
    template<typename U>
        requires(!std::is_same_v<std::remove_cvref_t<U>, Result>
                 && !std::is_same_v<std::remove_cvref_t<U>, T>
                 && !std::is_same_v<std::remove_cvref_t<U>, Error>
                 && !std::is_same_v<std::remove_cvref_t<U>, std::error_code>
                 && !(details::is_result_v<U> && !details::is_result_v<T>)
                 && std::is_convertible_v<U&&, T>)
    Result(U&& u) : m_v(std::in_place_index<0>, std::forward<U>(u)) {}
    template<typename E>
        requires(std::is_error_code_enum_v<std::remove_cvref_t<E>> && !std::is_convertible_v<E, T>)
    Result(E e) : m_v(std::in_place_index<1>, std::error_code(e)) {}
    Result(const Result&) = default;
    Result(Result&&) = default;
    Result& operator=(const Result&) = default;
    Result& operator=(Result&&) = default;

    bool is_ok() const noexcept { return m_v.index() == 0; }
    bool is_err() const noexcept { return m_v.index() != 0; }

    T& unwrap() & { need_ok(); return std::get<0>(m_v); }
    const T& unwrap() const& { need_ok(); return std::get<0>(m_v); }
    T&& unwrap() && { need_ok(); return std::get<0>(std::move(m_v)); }
    Error& unwrap_err() & { need_err(); return std::get<1>(m_v); }
    const Error& unwrap_err() const& { need_err(); return std::get<1>(m_v); }
    Error&& unwrap_err() && { need_err(); return std::get<1>(std::move(m_v)); }

    template<typename U> T unwrap_or(U&& d) const& { return is_ok() ? T(std::get<0>(m_v)) : T(std::forward<U>(d)); }
    template<typename U> T unwrap_or(U&& d) && { return is_ok() ? T(std::get<0>(std::move(m_v))) : T(std::forward<U>(d)); }
    template<typename U> T value_or(U&& d) const& { return unwrap_or(std::forward<U>(d)); }
    template<typename U> T value_or(U&& d) && { return std::move(*this).unwrap_or(std::forward<U>(d)); }

    template<typename F> auto fmap(F&& f) & { return do_fmap(*this, std::forward<F>(f)); }
    template<typename F> auto fmap(F&& f) const& { return do_fmap(*this, std::forward<F>(f)); }
    template<typename F> auto fmap(F&& f) && { return do_fmap(std::move(*this), std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) & { return do_bind(*this, std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) const& { return do_bind(*this, std::forward<F>(f)); }
    template<typename F> auto bind(F&& f) && { return do_bind(std::move(*this), std::forward<F>(f)); }
    // f takes the error and gives a replacement: an error, an error code or a Result.
    template<typename F> Result bind_err(F&& f) & { return do_bind_err(*this, std::forward<F>(f)); }
    template<typename F> Result bind_err(F&& f) const& { return do_bind_err(*this, std::forward<F>(f)); }
    template<typename F> Result bind_err(F&& f) && { return do_bind_err(std::move(*this), std::forward<F>(f)); }
    template<typename F> Result fmap_err(F&& f) const& { return do_bind_err(*this, std::forward<F>(f)); }
    template<typename F> Result fmap_err(F&& f) && { return do_bind_err(std::move(*this), std::forward<F>(f)); }

    template<typename... A> Result add_context(const A&... a) const& {
        Result r = *this;
        if (r.is_err()) { std::get<1>(r.m_v).add_context(a...); }
        return r;
    }
    template<typename... A> Result add_context(const A&... a) && {
        if (is_err()) { std::get<1>(m_v).add_context(a...); }
        return std::move(*this);
    }
    maybe::Maybe<T> to_maybe() const& { if (is_ok()) { return maybe::Maybe<T>{std::get<0>(m_v)}; } return maybe::None{}; }

private:
    void need_ok() const {
        if (m_v.index() != 0) {
            std::fprintf(stderr, "error was: %s\n", std::get<1>(m_v).message().c_str());
            contract_violation("unwrap of an error Result");
        }
    }
    void need_err() const { if (m_v.index() != 1) { contract_violation("unwrap_err of an ok Result"); } }
    template<typename> friend class Result;
    template<typename U> static Result wrap(U&& u) { return Result(WrapTag{}, std::forward<U>(u)); }
    struct WrapTag {};
    template<typename U> Result(WrapTag, U&& u) : m_v(std::in_place_index<0>, std::forward<U>(u)) {}

    template<typename S, typename F>
    static auto do_fmap(S&& s, F&& f) {
        using A = decltype(std::get<0>(std::forward<S>(s).m_v));
        using R = Result<details::lift_t<details::call_t<F, A>>>;
        if (s.is_err()) {
            return R{std::get<1>(std::forward<S>(s).m_v)};
        }
        return R::wrap(details::call_lifted(std::forward<F>(f), std::get<0>(std::forward<S>(s).m_v)));
    }
    template<typename S, typename F>
    static auto do_bind(S&& s, F&& f) {
        using A = decltype(std::get<0>(std::forward<S>(s).m_v));
        using R = std::remove_cvref_t<details::call_t<F, A>>;
        static_assert(details::is_result_v<R>, "Result::bind needs a function returning Result");
        if (s.is_err()) {
            return R{std::get<1>(std::forward<S>(s).m_v)};
        }
        return R(details::call(std::forward<F>(f), std::get<0>(std::forward<S>(s).m_v)));
    }
    template<typename S, typename F>
    static Result do_bind_err(S&& s, F&& f) {
        if (s.is_ok()) {
            return Result(std::forward<S>(s));
        }
        return Result(details::call(std::forward<F>(f), std::get<1>(std::forward<S>(s).m_v)));
    }
    std::variant<T, Error> m_v;
};

using MaybeError = Result<types::Unit>;

inline MaybeError success() { return MaybeError{types::Unit{}}; }
template<typename T>
Result<std::decay_t<T>> success(T&& v) { return Result<std::decay_t<T>>{std::forward<T>(v)}; }
template<typename T>
Result<std::decay_t<T>> return_value(T&& v) { return Result<std::decay_t<T>>{std::forward<T>(v)}; }

// First error among the arguments, or success.
template<typename... T>
MaybeError any_is_err(const Result<T>&... rs) {
    MaybeError r = success();
    auto one = [&](const auto& x) { if (r.is_ok() && x.is_err()) { r = MaybeError{x.unwrap_err()}; } };
    (one(rs), ...);
    return r;
}

// Calls f with every value when all are ok; otherwise gives the first error.
template<typename F, typename... Rs>
    requires((details::is_result_v<Rs> && ...))
auto combine(F&& f, Rs&&... rs) {
    using R0 = details::call_t<F, decltype(std::forward<Rs>(rs).unwrap())...>;
    constexpr bool is_res = details::is_result_v<R0>;
    using R = typename std::conditional_t<is_res, std::type_identity<std::remove_cvref_t<R0>>,
                                          std::type_identity<Result<details::lift_t<R0>>>>::type;
    if (auto e = any_is_err(rs...); e.is_err()) {
        return R{e.unwrap_err()};
    }
    if constexpr (is_res) {
        return R(details::call(std::forward<F>(f), std::forward<Rs>(rs).unwrap()...));
    } else {
        return R(details::call_lifted(std::forward<F>(f), std::forward<Rs>(rs).unwrap()...));
    }
}

// Folds f over a range, stopping at the first error.
template<typename It, typename F>
MaybeError reduce(It begin, It end, F&& f) {
    for (; begin != end; ++begin) {
        if constexpr (std::is_invocable_v<F, decltype(std::move(*begin))>) {
            auto r = std::invoke(f, std::move(*begin));
            if (r.is_err()) { return MaybeError{r.unwrap_err()}; }
        } else {
            auto r = std::invoke(f, *begin);
            if (r.is_err()) { return MaybeError{r.unwrap_err()}; }
        }
    }
    return success();
}
template<typename It, typename Acc, typename F>
Result<std::decay_t<Acc>> reduce(It begin, It end, Acc&& init, F&& f) {
    Result<std::decay_t<Acc>> acc{std::forward<Acc>(init)};
    for (; begin != end && acc.is_ok(); ++begin) {
        acc = details::call(f, std::move(acc).unwrap(), *begin);
    }
    return acc;
}

}

namespace details {
enum class ShimErrorCode { ok = 0, value_required_in_maybe };
class ShimErrorCategory : public std::error_category {
public:
    const char* name() const noexcept override { return "craftpp"; }
    std::string message(int c) const override {
        return c == 0 ? "success" : c == 1 ? "value is required in maybe" : "unknown craftpp error";
    }
};
inline error::Error value_required() {
    static const ShimErrorCategory cat;
    return error::Error{std::error_code(1, cat)};
}
}

namespace maybe {
template<typename T> result::Result<T> Maybe<T>::require() const& { return require(details::value_required()); }
template<typename T> result::Result<T> Maybe<T>::require() && { return std::move(*this).require(details::value_required()); }
template<typename T> result::Result<T> Maybe<T>::require(const error::Error& e) const& {
    if (is_some()) { return result::Result<T>{*m_v}; }
    return result::Result<T>{e};
}
template<typename T> result::Result<T> Maybe<T>::require(const error::Error& e) && {
    if (is_some()) { return result::Result<T>{std::move(*m_v)}; }
    return result::Result<T>{e};
}
}

}
