// max_size and max_count
#pragma once
#include "json.h"
template <class M> static bool encodes(const M &m)
{
    const int form = int(__ai_pick("form", 3));
    try
    {
        uint8_t buf[128];
        if (form == 0) spb::pb::serialize(m, spb::io::writer(ref::log_writer{5}));
        else if (form == 1) spb::pb::serialize(m, (void *)buf);
        else
        {
            std::vector<std::byte> c;
            spb::pb::serialize(m, c);
        }
    }
    catch (...)
    {
        return false;
    }
    return true;
}
template <class M> static bool jencodes(const M &m)
{
    const int form = int(__ai_pick("form", 3));
    try
    {
        uint8_t buf[128];
        if (form == 0) spb::json::serialize(m, spb::io::writer(ref::log_writer{5}));
        else if (form == 1) spb::json::serialize(m, (void *)buf);
        else
        {
            std::string c;
            spb::json::serialize(m, c);
        }
    }
    catch (...)
    {
        return false;
    }
    return true;
}
static const char *const limit_enc = "encoding fails exactly over the limit", *const limit_dec = "decoding fails exactly over the limit", *const limit_jenc = "JSON encoding fails exactly over the limit",
                        *const limit_jdec = "JSON decoding fails exactly over the limit";
// fill(m, len): stores a value of len bytes; text: is it a string; array: is it repeated
template <class M, class S> static void max_size(uint32_t number, size_t max, bool text, bool array, S fill)
{
    const size_t len = __ai_pick("len", max + 4);
    M m{};
    fill(m, len);
    const bool fits = len <= max;
    switch (__ai_pick("way", 4))
    {
    case 0: __ai_assert(encodes(m) == fits, limit_enc); break;
    case 1:
    {
        ref::tag(0, number, 2);
        ref::varint(0, len);
        auto *p = static_cast<uint8_t *>(__ai_buffer("content", len ? len : 1));
        for (size_t i = 0; text && i < len; i++) __ai_assume(p[i] < 0x80);
        if (len) __ai_log(0, p, len);
        uint8_t buf[64];
        const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
        M r{};
        if (__ai_pick("reader", 2)) __ai_assert(decode_reader(r, buf, n, {buf, n, 1000, 99}) == fits, limit_dec);
        else __ai_assert(decode(r, buf, n) == fits, limit_dec);
        break;
    }
    case 2: __ai_assert(jencodes(m) == fits, limit_jenc); break;
    default:
    {
        rj::put(0, array ? "{\"v\":[\"" : "{\"v\":\"");
        if (text)
        {
            // an escape is one byte
            const size_t esc = len ? __ai_pick("escapes", 3) : 0;
            for (size_t i = 0; i < len; i++) rj::put(0, i < esc ? "\\n" : "a");
        }
        else
        {
            uint8_t z[16] = {};
            rj::base64(0, z, len);
        }
        rj::put(0, array ? "\"]}" : "\"}");
        uint8_t buf[96];
        const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
        M r{};
        if (__ai_pick("reader", 2)) __ai_assert(jdecode_reader(r, {buf, n, 1000, 99}) == fits, limit_jdec);
        else __ai_assert(jdecode(r, exact(buf, n), n) == fits, limit_jdec);
    }
    }
    __ai_cover("done");
}
// one(ch): record of one item; packed: payload of one packed item, or nothing; text of an item
template <class M, class S, class O> static void max_count(uint32_t number, size_t max, bool packable, std::string_view text, S add, O item)
{
    const size_t count = __ai_pick("count", max + 3);
    M m{};
    for (size_t i = 0; i < count; i++) add(m);
    const bool fits = count <= max;
    switch (__ai_pick("way", 4))
    {
    case 0: __ai_assert(encodes(m) == fits, limit_enc); break;
    case 1:
    {
        // every split into packed and single items
        size_t left = count;
        while (left)
        {
            const size_t k = packable ? __ai_pick("packed", left + 1) : 0;
            if (k)
            {
                ref::tag(0, number, 2);
                ref::delimited(0, 9, [&](int ch) { for (size_t i = 0; i < k; i++) item(ch, false); });
                left -= k;
            }
            else
            {
                item(0, true);
                left--;
            }
        }
        uint8_t buf[96];
        const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
        M r{};
        if (__ai_pick("reader", 2)) __ai_assert(decode_reader(r, buf, n, {buf, n, 1000, 99}) == fits, limit_dec);
        else __ai_assert(decode(r, buf, n) == fits, limit_dec);
        break;
    }
    case 2: __ai_assert(jencodes(m) == fits, limit_jenc); break;
    default:
    {
        rj::put(0, "{\"v\":[");
        for (size_t i = 0; i < count; i++)
        {
            if (i) rj::put(0, ",");
            rj::put(0, text);
        }
        rj::put(0, "]}");
        uint8_t buf[96];
        const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
        M r{};
        if (__ai_pick("reader", 2)) __ai_assert(jdecode_reader(r, {buf, n, 1000, 99}) == fits, limit_jdec);
        else __ai_assert(jdecode(r, exact(buf, n), n) == fits, limit_jdec);
    }
    }
    __ai_cover("done");
}
// a fixed size string or bytes with a limit
template <class M> static void max_fixed(uint32_t number, size_t max, bool text)
{
    M m{};
    const size_t len = m.v.size();
    const bool fits = len <= max;
    for (size_t i = 0; i < len; i++) m.v[i] = typename std::remove_cvref_t<decltype(m.v)>::value_type('a');
    switch (__ai_pick("way", 4))
    {
    case 0: __ai_assert(encodes(m) == fits, limit_enc); break;
    case 1:
    {
        ref::tag(0, number, 2);
        ref::varint(0, len);
        for (size_t i = 0; i < len; i++) ref::byte(0, 'a');
        uint8_t buf[64];
        const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
        M r{};
        if (__ai_pick("reader", 2)) __ai_assert(decode_reader(r, buf, n, {buf, n, 1000, 99}) == fits, limit_dec);
        else __ai_assert(decode(r, buf, n) == fits, limit_dec);
        break;
    }
    case 2: __ai_assert(jencodes(m) == fits, limit_jenc); break;
    default:
    {
        rj::put(0, "{\"v\":\"");
        const size_t esc = text ? __ai_pick("escapes", 3) : 0;
        uint8_t z[16] = {};
        if (text) for (size_t i = 0; i < len; i++) rj::put(0, i < esc ? "\\n" : "a");
        else rj::base64(0, z, len);
        rj::put(0, "\"}");
        uint8_t buf[96];
        const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
        M r{};
        if (__ai_pick("reader", 2)) __ai_assert(jdecode_reader(r, {buf, n, 1000, 99}) == fits, limit_jdec);
        else __ai_assert(jdecode(r, exact(buf, n), n) == fits, limit_jdec);
    }
    }
    __ai_cover("done");
}
