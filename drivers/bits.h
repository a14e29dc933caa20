// bit-fields
#pragma once
#include "json.h"
struct number_case
{
    const char *text;
    bool fits;
    uint64_t value;
};
// any value of the field's declared type is accepted exactly if it fits the declared bits
template <class M, ref::Kind K, class T, class G> static void bits_pb(uint32_t number, int bits, [[maybe_unused]] int type_bits, G get)
{
    constexpr int w = 8 * sizeof(T);
    T v;
    const bool fits = bits == w || __ai_pick("fits", 2);
    if (fits)
    {
        const uint64_t x = __ai_any("value", bits);
        v = std::is_signed_v<T> ? T(int64_t(x << (64 - bits)) >> (64 - bits)) : T(x);
    }
    else
    {
        // some bit over the field is not the sign (signed) or not 0 (unsigned)
        v = ref::any_value<T>("value");
        const int from = std::is_signed_v<T> ? bits - 1 : bits, to = std::is_signed_v<T> ? w - 1 : w;
        const int j = from + int(__ai_pick("bit", uint64_t(to - from)));
        __ai_assume(((uint64_t(v) >> j) & 1) != (std::is_signed_v<T> ? (uint64_t(v) >> (w - 1)) & 1 : 0));
    }
    if (!fits) __ai_note("sign", __ai_split((uint64_t(v) >> (w - 1)) & 1)); // cases by the sign
    // a negative value in the five byte form is accepted for every signed C++ type of up to 32 bits
    if constexpr (K == ref::INT64)
    {
        // a 32 bit C++ type is decoded as an int32: modulo 2^32
        if (!fits && type_bits == 32) __ai_assume(v == int64_t(int32_t(v)));
        if (!fits && type_bits < 32) __ai_assume((uint64_t(v) >> 32) != 0);
    }
    ref::field<K>(0, number, v);
    uint8_t buf[24];
    const size_t n = __ai_log_get(0, buf, sizeof buf);
    M r{};
    const bool ok = __ai_pick("reader", 2) ? decode_reader(r, buf, n, {buf, n, 1000, 99}) : decode(r, buf, n);
    if (fits)
    {
        __ai_assert(ok, "a value that fits the bit-field is accepted");
        if (ok) __ai_assert(T(get(r)) == v, "the value of the bit-field");
    }
    else __ai_assert(!ok, "a value that does not fit the bit-field is rejected");
    __ai_cover("done");
}
template <class M, class G, size_t N> static void bits_json(const char *name, const number_case (&cases)[N], G get)
{
    const auto &c = cases[__ai_pick("case", N)];
    const bool quoted = __ai_pick("quoted", 2);
    rj::put(0, "{\"");
    rj::put(0, name);
    rj::put(0, quoted ? "\":\"" : "\":");
    rj::put(0, c.text);
    rj::put(0, quoted ? "\"}" : "}");
    uint8_t buf[64];
    const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    M r{};
    const bool ok = __ai_pick("reader", 2) ? jdecode_reader(r, {buf, n, 1000, 99}) : jdecode(r, exact(buf, n), n);
    if (c.fits)
    {
        __ai_assert(ok, "a value that fits the bit-field is accepted from JSON");
        if (ok) __ai_assert(uint64_t(get(r)) == c.value, "the value of the bit-field from JSON");
    }
    else __ai_assert(!ok, "a value that does not fit the bit-field is rejected from JSON");
    __ai_cover("done");
}
