// Errors of the craftnapi stand-in.
#pragma once
#include <string>
#include <system_error>

namespace craftnapi {

enum class Error { ok = 0, invalid_arg, object_expected, string_expected, number_expected, boolean_expected, no_argument };

class ErrorCategory : public std::error_category {
public:
    const char* name() const noexcept override { return "napi"; }
    std::string message(int c) const override { return "napi error " + std::to_string(c); }
};

inline std::error_code make_error_code(Error e) {
    static const ErrorCategory cat;
    return std::error_code(int(e), cat);
}

}

template<> struct std::is_error_code_enum<craftnapi::Error> : std::true_type {};
