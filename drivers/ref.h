// Reference model of the protobuf wire format and of the JSON mapping, written from the public
// specifications. It is the oracle of the obligations and shares no code with the library.
#pragma once
#include "ai.h"
#include <array>
#include <bit>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <variant>
#include <vector>
template void std::basic_string<char>::_M_replace_cold(char *, size_type, const char *, const size_type, const size_type);

namespace ref
{
enum Kind { INT32, INT64, UINT32, UINT64, SINT32, SINT64, FIXED32, FIXED64, SFIXED32, SFIXED64, FLOAT, DOUBLE, BOOL, ENUM, STRING, BYTES, MESSAGE };
constexpr int wire_type(Kind k)
{
    switch (k)
    {
    case FIXED32: case SFIXED32: case FLOAT: return 5;
    case FIXED64: case SFIXED64: case DOUBLE: return 1;
    case STRING: case BYTES: case MESSAGE: return 2;
    default: return 0;
    }
}
inline void byte(int ch, uint8_t b) { __ai_log_byte(ch, b); }
inline void varint(int ch, uint64_t v)
{
    while (v >= 0x80)
    {
        byte(ch, uint8_t(v) | 0x80);
        v >>= 7;
    }
    byte(ch, uint8_t(v));
}
inline void fixed(int ch, uint64_t v, int n)
{
    for (int i = 0; i < n; i++) byte(ch, uint8_t(v >> (8 * i)));
}
inline void tag(int ch, uint32_t number, int wt) { varint(ch, (uint64_t(number) << 3) | unsigned(wt)); }

template <class T> constexpr int64_t as_signed(T v)
{
    if constexpr (std::is_enum_v<T>) return int64_t(static_cast<std::underlying_type_t<T>>(v));
    else return int64_t(v);
}
template <Kind K, class T> void scalar(int ch, T v)
{
    if constexpr (K == BOOL) byte(ch, v ? 1 : 0);
    else if constexpr (K == FLOAT) fixed(ch, std::bit_cast<uint32_t>(v), 4);
    else if constexpr (K == DOUBLE) fixed(ch, std::bit_cast<uint64_t>(v), 8);
    else if constexpr (K == FIXED32 || K == SFIXED32) fixed(ch, uint64_t(as_signed(v)), 4);
    else if constexpr (K == FIXED64 || K == SFIXED64) fixed(ch, uint64_t(as_signed(v)), 8);
    else if constexpr (K == SINT32 || K == SINT64)
    {
        int64_t x = as_signed(v);
        varint(ch, (uint64_t(x) << 1) ^ uint64_t(x >> 63));
    }
    else if constexpr (K == UINT32 || K == UINT64) varint(ch, uint64_t(v));
    else varint(ch, uint64_t(as_signed(v))); // int32, int64, enum: sign extended
}
// length delimited pieces use a scratch log per nesting depth
template <class F> void delimited(int ch, int scratch, F body)
{
    __ai_log_clear(scratch);
    body(scratch);
    varint(ch, __ai_log_size(scratch));
    __ai_log_append(ch, scratch);
}
template <class S> void text(int ch, const S &s)
{
    varint(ch, s.size());
    if (s.size()) __ai_log(ch, s.data(), s.size());
}
template <Kind K, class T> void field(int ch, uint32_t number, const T &v)
{
    tag(ch, number, wire_type(K));
    if constexpr (K == STRING || K == BYTES) text(ch, v);
    else scalar<K>(ch, v);
}
template <Kind K, class C> void packed(int ch, int scratch, uint32_t number, const C &c)
{
    if (c.size() == 0) return;
    tag(ch, number, 2);
    delimited(ch, scratch, [&](int s) {
        for (size_t i = 0; i < c.size(); i++) scalar<K>(s, c[i]);
    });
}

// ---- abstract values
inline uint64_t any(const char *n, int bits) { return __ai_any(n, bits); }
template <class T> T any_value(const char *n)
{
    if constexpr (std::is_same_v<T, bool>) return __ai_any(n, 1) & 1;
    else if constexpr (std::is_same_v<T, float>) return std::bit_cast<float>(uint32_t(__ai_any(n, 32)));
    else if constexpr (std::is_same_v<T, double>) return std::bit_cast<double>(uint64_t(__ai_any(n, 64)));
#ifdef REF_NARROW
    else if constexpr (std::is_enum_v<T>) return T(std::underlying_type_t<T>(__ai_any(n, 6)));
#else
    else if constexpr (std::is_enum_v<T>) return T(std::underlying_type_t<T>(__ai_any(n, 8 * sizeof(T))));
#endif
#ifdef REF_NARROW
    // one byte varints: fewer cases where the size of a value is not the point
    else return T(__ai_any(n, 6));
#else
    else return T(__ai_any(n, 8 * sizeof(T)));
#endif
}
template <class T> bool same(const T &a, const T &b)
{
    if constexpr (std::is_same_v<T, float>) return std::bit_cast<uint32_t>(a) == std::bit_cast<uint32_t>(b);
    else if constexpr (std::is_same_v<T, double>) return std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b);
    else return a == b;
}
// content equality without branching per element
template <class A, class B> bool same_text(const A &a, const B &b)
{
    if (a.size() != b.size()) return false;
    unsigned d = 0;
    for (size_t i = 0; i < a.size(); i++) d |= uint8_t(a.data()[i]) ^ uint8_t(b.data()[i]);
    return d == 0;
}
template <class S> void any_ascii(S &s, const char *n, unsigned max)
{
    size_t len = __ai_pick("len", max + 1);
    auto *p = static_cast<char *>(__ai_buffer(n, max ? max : 1));
    for (size_t i = 0; i < len; i++) __ai_assume(uint8_t(p[i]) < 0x80);
    if constexpr (requires { s.assign(p, p + len); }) s.assign(reinterpret_cast<const typename S::value_type *>(p), reinterpret_cast<const typename S::value_type *>(p) + len);
}
template <class S> void any_bytes(S &s, const char *n, unsigned max)
{
    size_t len = __ai_pick("len", max + 1);
    auto *p = static_cast<typename S::value_type *>(__ai_buffer(n, max ? max : 1));
    s.resize(len);
    if (len) memcpy(s.data(), p, len);
}

// ---- sinks
struct log_writer
{
    int ch;
    void operator()(const void *p, size_t n) const
    {
        if (n) __ai_log(ch, p, n);
    }
};
} // namespace ref
