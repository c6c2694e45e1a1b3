// Stand-in for craftpp (the real library is not available offline).
#pragma once
#include <ostream>
namespace craftpp::types {
struct Unit {
    static constexpr Unit create() noexcept { return Unit{}; }
    constexpr bool operator==(const Unit&) const noexcept = default;
};
inline std::ostream& operator<<(std::ostream& o, const Unit&) { return o << "()"; }
}
