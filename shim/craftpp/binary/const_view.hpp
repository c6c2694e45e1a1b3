// Stand-in for craftpp (the real library is not available offline).
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <algorithm>
#include <vector>
#include "craftpp/core.hpp"
namespace craftpp::binary {
class ConstView {
public:
    using ByteVec = std::vector<uint8_t>;
    using value_type = uint8_t;
    using const_iterator = const uint8_t*;
    struct Interval {
        size_t offset;
        size_t count;
        bool operator==(const Interval&) const noexcept = default;
    };
    ConstView(const void* data, size_t size) : m_data(static_cast<const uint8_t*>(data)), m_size(size) {}
    explicit ConstView(const std::vector<uint8_t>& v) : m_data(v.data()), m_size(v.size()) {}
    template<size_t N>
    explicit ConstView(const std::array<uint8_t, N>& v) : m_data(v.data()), m_size(N) {}
    ConstView(const ConstView&) = default;
    ConstView& operator=(const ConstView&) = default;

    const uint8_t* data() const noexcept { return m_data; }
    size_t size() const noexcept { return m_size; }
    bool empty() const noexcept { return m_size == 0; }
    const uint8_t* begin() const noexcept { return m_data; }
    const uint8_t* end() const noexcept { return m_data + m_size; }

    bool contains(const Interval& i) const noexcept { return i.offset <= m_size && i.count <= m_size - i.offset; }

    uint8_t assured_read_u8(size_t o) const noexcept { need(o, 1); return m_data[o]; }
    uint16_t assured_read_u16be(size_t o) const noexcept { need(o, 2); return uint16_t((m_data[o] << 8) | m_data[o + 1]); }
    uint32_t assured_read_u32be(size_t o) const noexcept { need(o, 4); return (uint32_t(assured_read_u16be(o)) << 16) | assured_read_u16be(o + 2); }
    uint64_t assured_read_u64be(size_t o) const noexcept { need(o, 8); return (uint64_t(assured_read_u32be(o)) << 32) | assured_read_u32be(o + 4); }
    ConstView assured_subview(size_t o, size_t n) const noexcept { need(o, n); return ConstView(m_data + o, n); }
    ConstView assured_subview(size_t o) const noexcept { need(o, 0); return ConstView(m_data + o, m_size - o); }

    maybe::Maybe<uint8_t> read_u8(size_t o) const noexcept { if (!contains({o, 1})) { return maybe::None{}; } return assured_read_u8(o); }
    maybe::Maybe<uint16_t> read_u16be(size_t o) const noexcept { if (!contains({o, 2})) { return maybe::None{}; } return assured_read_u16be(o); }
    maybe::Maybe<uint32_t> read_u32be(size_t o) const noexcept { if (!contains({o, 4})) { return maybe::None{}; } return assured_read_u32be(o); }
    maybe::Maybe<uint64_t> read_u64be(size_t o) const noexcept { if (!contains({o, 8})) { return maybe::None{}; } return assured_read_u64be(o); }

    maybe::Maybe<ConstView> subview(size_t o) const noexcept { if (o > m_size) { return maybe::None{}; } return ConstView(m_data + o, m_size - o); }
    maybe::Maybe<ConstView> subview(size_t o, size_t n) const noexcept { if (!contains({o, n})) { return maybe::None{}; } return ConstView(m_data + o, n); }
    maybe::Maybe<ConstView> subview(const Interval& i) const noexcept { return subview(i.offset, i.count); }

    static ByteVec concat(const std::vector<ConstView>& vv) {
        size_t n = 0;
        for (const auto& v : vv) { n += v.size(); }
        ByteVec r;
        r.reserve(n);
        for (const auto& v : vv) { r.insert(r.end(), v.begin(), v.end()); }
        return r;
    }
    bool operator==(const ConstView& o) const noexcept {
        return m_size == o.m_size && std::equal(begin(), end(), o.begin());
    }
private:
    void need(size_t o, size_t n) const noexcept {
        if (!contains({o, n})) { contract_violation("assured access outside the view"); }
    }
    const uint8_t* m_data;
    size_t m_size;
};
}
