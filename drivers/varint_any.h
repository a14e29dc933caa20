// decoding of an arbitrary varint (minimal or not) into a field
#pragma once
#include <limits>
template <class M, ref::Kind K, class G> static void varint_any(uint32_t number, G get)
{
    const size_t n = 1 + __ai_pick("length", 11);
    auto *in = static_cast<uint8_t *>(__ai_buffer("varint", 11));
    for (size_t i = 0; i + 1 < n; i++) __ai_assume(in[i] >> 7);
    const bool term = __ai_pick("terminated", 2);
    __ai_assume((in[n - 1] >> 7) == (term ? 0 : 1));
    if (n == 10) __ai_assume((in[9] & 0x7e) == 0); // bits over 64
    ref::tag(0, number, 0);
    uint8_t buf[24];
    const size_t h = __ai_log_get(0, buf, sizeof buf);
    memcpy(buf + h, in, n);
    M m{};
    bool ok = true;
    try { spb::pb::deserialize(m, buf, h + n); } catch (...) { ok = false; }
    if (!term || n > 10)
    {
        __ai_assert(!ok, "an unterminated or too long varint is rejected");
        __ai_cover("done");
        return;
    }
    uint64_t full = 0;
    for (size_t i = 0; i < n; i++) full |= uint64_t(in[i] & 0x7f) << (7 * i);
    auto &v = get(m);
    using V = std::remove_cvref_t<decltype(v)>;
    if constexpr (K == ref::BOOL)
    {
        if (ok) __ai_assert(v == (full != 0), "value of a bool");
        if (n == 1 && full < 2) __ai_assert(ok, "0 and 1 are accepted");
    }
    else
    {
        using T = typename std::conditional_t<std::is_enum_v<V>, std::underlying_type<V>, std::type_identity<V>>::type;
        const T got = T(v);
        if constexpr (K == ref::SINT32 || K == ref::SINT64)
        {
            const int64_t x = int64_t((full >> 1) ^ (0 - (full & 1)));
            const bool fits = x == int64_t(T(x));
            if (ok) __ai_assert(got == T(x), "value of a zigzag varint");
            if (ok && sizeof(T) < 4) __ai_assert(fits, "a value that does not fit is rejected");
            if (fits) __ai_assert(ok, "a value that fits is accepted");
        }
        else if constexpr (std::is_signed_v<T>)
        {
            const int64_t x = int64_t(full), y = int32_t(full);
            const bool fits = x == int64_t(T(x)), fits32 = full <= 0xffffffffu && y == int64_t(T(y));
            if (ok) __ai_assert(got == T(full), "value of a signed varint");
            // int32 and enums take the low 32 bits
            if (sizeof(T) == 4 && (K == ref::INT32 || K == ref::ENUM)) __ai_assert(ok, "the low 32 bits are taken");
            if (ok && sizeof(T) < 4) __ai_assert(fits || fits32, "a value that does not fit is rejected");
            if (fits) __ai_assert(ok, "a value that fits is accepted");
        }
        else
        {
            const bool fits = full == uint64_t(T(full));
            if (ok) __ai_assert(got == T(full), "value of an unsigned varint");
            if (ok && sizeof(T) < 4) __ai_assert(fits, "a value that does not fit is rejected");
            if (fits) __ai_assert(ok, "a value that fits is accepted");
        }
    }
    __ai_cover("done");
}
// decoding of any fixed size value into a field of any C++ type
template <class M, ref::Kind K, class G> static void fixed_any(uint32_t number, bool packed, G get)
{
    constexpr size_t n = K == ref::FIXED32 || K == ref::SFIXED32 ? 4 : 8;
    using T = std::remove_cvref_t<decltype(get(*static_cast<M *>(nullptr)))>;
    constexpr int bits = 8 * sizeof(T) - std::is_signed_v<T>, top = 8 * n - std::is_signed_v<T>;
    // a value that fits, or one that does not: its highest bit that differs from the sign
    const bool neg = std::is_signed_v<T> && __ai_pick("negative", 2);
    const size_t k = __ai_pick("highest", top - bits + 1);
    const uint64_t low = k ? bits + k - 1 : bits, sign = neg ? ~uint64_t(0) : 0;
    const bool fits = k == 0;
    uint64_t full = __ai_any("value", 64);
    if (low < 64) full = (full & ((uint64_t(1) << (low & 63)) - 1)) | (sign << (low & 63));
    if (k) full = neg ? full & ~(uint64_t(1) << (low & 63)) : full | (uint64_t(1) << (low & 63));
    uint8_t in[8];
    for (size_t i = 0; i < 8; i++) in[i] = uint8_t(full >> (8 * i));
    if (packed)
    {
        ref::tag(0, number, 2);
        ref::varint(0, n);
    }
    else ref::tag(0, number, n == 4 ? 5 : 1);
    uint8_t buf[24];
    const size_t h = __ai_log_get(0, buf, sizeof buf);
    memcpy(buf + h, in, n);
    M m{};
    bool ok = true;
    try { spb::pb::deserialize(m, buf, h + n); } catch (...) { ok = false; }
    __ai_assert(ok == fits, "a fixed size value is accepted exactly if it fits");
    if (ok && fits) __ai_assert(get(m) == T(full), "value of a fixed size field");
    __ai_cover("done");
}
