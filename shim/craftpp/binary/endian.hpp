// Stand-in for craftpp (the real library is not available offline).
#pragma once
#include <bit>
#include <cstdint>
namespace craftpp::binary {
namespace details {
constexpr uint16_t swap(uint16_t v) noexcept { return uint16_t((v >> 8) | (v << 8)); }
constexpr uint32_t swap(uint32_t v) noexcept { return (uint32_t(swap(uint16_t(v))) << 16) | swap(uint16_t(v >> 16)); }
constexpr uint64_t swap(uint64_t v) noexcept { return (uint64_t(swap(uint32_t(v))) << 32) | swap(uint32_t(v >> 32)); }
template<typename T> constexpr T be(T v) noexcept {
    if constexpr (std::endian::native == std::endian::big) { return v; } else { return swap(v); }
}
}
constexpr uint64_t network_to_host_u64(uint64_t v) noexcept { return details::be(v); }
constexpr uint32_t network_to_host_u32(uint32_t v) noexcept { return details::be(v); }
constexpr uint16_t network_to_host_u16(uint16_t v) noexcept { return details::be(v); }
constexpr uint64_t host_to_network_u64(uint64_t v) noexcept { return details::be(v); }
constexpr uint32_t host_to_network_u32(uint32_t v) noexcept { return details::be(v); }
constexpr uint16_t host_to_network_u16(uint16_t v) noexcept { return details::be(v); }
}
