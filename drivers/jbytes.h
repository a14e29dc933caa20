// bytes in JSON: base64 (RFC 4648)
#pragma once
#include "jtext.h"
namespace b64
{
static constexpr char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
struct table
{
    uint8_t v[256];
    constexpr table() : v()
    {
        for (int i = 0; i < 256; i++) v[i] = 64;
        for (uint8_t i = 0; i < 64; i++) v[uint8_t(alphabet[i])] = i;
    }
};
static constexpr table sextet;
} // namespace b64
// bytes of length n are written as their base64 text
template <class M, class S> static void bytes_written(size_t n, Place place, S set)
{
    const auto *p = static_cast<const uint8_t *>(__ai_buffer("bytes", n ? n : 1));
    M m{};
    set(m, p, n);
    rj::put(1, text_head(place));
    rj::put(1, '"');
    rj::base64(1, p, n);
    rj::put(1, '"');
    rj::put(1, text_tail(place));
    spb::json::serialize(m, spb::io::writer(ref::log_writer{0}));
    __ai_assert_logs(0, 1, "base64 of the bytes");
    __ai_cover("done");
}
// any text of n characters, '=' at the positions of the mask only: is it base64, of which bytes
template <class M, class G> static void bytes_read(size_t n, unsigned pads, bool chunks, Place place, G same)
{
    uint8_t text[64], dec[64];
    size_t k = 0;
    auto put = [&](std::string_view s) {
        for (char c : s) text[k++] = uint8_t(c);
    };
    put(text_head(place));
    put("\"");
    auto *p = static_cast<uint8_t *>(__ai_buffer("chars", n ? n : 1));
    for (size_t i = 0; i < n; i++)
    {
        if (pads >> i & 1)
        {
            text[k++] = '=';
            continue;
        }
        // escapes are not looked at here; the URL safe alphabet may be accepted
        __ai_assume(p[i] != '=' && p[i] != '"' && p[i] != '\\' && p[i] != '-' && p[i] != '_');
        text[k++] = p[i];
    }
    put("\"");
    put(text_tail(place));
    M r{};
    const bool ok = chunks ? jdecode_reader(r, {text, k, 1000, 99}) : jdecode(r, exact(text, k), k);
    bool shape = n % 4 == 0;
    size_t size = n / 4 * 3;
    if (pads)
    {
        const unsigned last = n >= 4 ? 1u << (n - 1) : 0;
        if (shape && pads == last) size -= 1;
        else if (shape && pads == (last | last >> 1)) size -= 2;
        else shape = false;
    }
    unsigned bad = 0;
    for (size_t i = 0; i < n; i++)
        if (!(pads >> i & 1)) bad |= b64::sextet.v[p[i]];
    if (!shape || (bad & 64))
    {
        __ai_assert(!ok, "text that is not base64 is rejected");
        __ai_cover("done");
        return;
    }
    for (size_t i = 0; i < n; i += 4)
    {
        auto s = [&](size_t j) { return pads >> (i + j) & 1 ? 0u : unsigned(b64::sextet.v[p[i + j]]); };
        const unsigned v = s(0) << 18 | s(1) << 12 | s(2) << 6 | s(3);
        dec[i / 4 * 3] = uint8_t(v >> 16);
        dec[i / 4 * 3 + 1] = uint8_t(v >> 8);
        dec[i / 4 * 3 + 2] = uint8_t(v);
    }
    // bits behind the last byte must be 0: others may be rejected
    unsigned rest = 0;
    for (size_t i = size; i < n / 4 * 3; i++) rest |= dec[i];
    __ai_assume(rest == 0);
    __ai_assert(ok, "base64 is accepted");
    if (ok) __ai_assert(same(r, dec, size), "the bytes of the base64 text");
    __ai_cover("done");
}
// a long text with one arbitrary character, from a reader: no part of it escapes the check
template <class M, class G> static void bytes_read_long(size_t from, size_t count, Place place, G same)
{
    static uint8_t text[600], dec[600];
    static const size_t n = 400;
    size_t k = 0;
    auto put = [&](std::string_view s) {
        for (char c : s) text[k++] = uint8_t(c);
    };
    put(text_head(place));
    put("\"");
    const size_t at = from + __ai_pick("at", count);
    const auto *p = static_cast<const uint8_t *>(__ai_buffer("char", 1));
    __ai_assume(p[0] != '=' && p[0] != '"' && p[0] != '\\' && p[0] != '-' && p[0] != '_');
    for (size_t i = 0; i < n; i++) text[k++] = i == at ? p[0] : uint8_t(b64::alphabet[(i * 7 + 1) & 63]);
    put("\"");
    put(text_tail(place));
    static const size_t limits[] = {1000, 150, 3};
    M r{};
    const bool ok = jdecode_reader(r, {text, k, limits[__ai_pick("chunk", 3)], 99});
    const unsigned s0 = b64::sextet.v[p[0]];
    __ai_cover("done");
    if (s0 & 64)
    {
        __ai_assert(!ok, "a character that is not base64 is rejected anywhere in a long text");
        return;
    }
    __ai_assert(ok, "long base64 is accepted");
    for (size_t i = 0; i < n; i += 4)
    {
        auto s = [&](size_t j) { return i + j == at ? s0 : unsigned((i + j) * 7 + 1) & 63; };
        const unsigned v = s(0) << 18 | s(1) << 12 | s(2) << 6 | s(3);
        dec[i / 4 * 3] = uint8_t(v >> 16);
        dec[i / 4 * 3 + 1] = uint8_t(v >> 8);
        dec[i / 4 * 3 + 2] = uint8_t(v);
    }
    if (ok) __ai_assert(same(r, dec, n / 4 * 3), "the bytes of a long base64 text");
}
