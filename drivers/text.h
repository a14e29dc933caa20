// UTF-8 on every path
#pragma once
#include "json.h"
#include "rbtree.h"
#include "maxlimits.h"
// RFC 3629, section 4
static bool rfc3629(const uint8_t *p, size_t n)
{
    size_t i = 0;
    auto in = [&](size_t k, unsigned lo, unsigned hi) { return k < n && p[k] >= lo && p[k] <= hi; };
    while (i < n)
    {
        const unsigned c = p[i];
        if (c <= 0x7f) i += 1;
        else if (c >= 0xc2 && c <= 0xdf && in(i + 1, 0x80, 0xbf)) i += 2;
        else if (c == 0xe0 && in(i + 1, 0xa0, 0xbf) && in(i + 2, 0x80, 0xbf)) i += 3;
        else if (((c >= 0xe1 && c <= 0xec) || c == 0xee || c == 0xef) && in(i + 1, 0x80, 0xbf) && in(i + 2, 0x80, 0xbf)) i += 3;
        else if (c == 0xed && in(i + 1, 0x80, 0x9f) && in(i + 2, 0x80, 0xbf)) i += 3;
        else if (c == 0xf0 && in(i + 1, 0x90, 0xbf) && in(i + 2, 0x80, 0xbf) && in(i + 3, 0x80, 0xbf)) i += 4;
        else if (c >= 0xf1 && c <= 0xf3 && in(i + 1, 0x80, 0xbf) && in(i + 2, 0x80, 0xbf) && in(i + 3, 0x80, 0xbf)) i += 4;
        else if (c == 0xf4 && in(i + 1, 0x80, 0x8f) && in(i + 2, 0x80, 0xbf) && in(i + 3, 0x80, 0xbf)) i += 4;
        else return false;
    }
    return true;
}
enum Place { PLAIN, ARRAY, KEY, VALUE };
// set(m, p, n) stores the text; number of the field; how it stands in JSON
template <class M, class S> static void utf8(int way, size_t prefix, size_t suffix, uint32_t number, Place place, size_t fixed, size_t max, S set)
{
    const size_t len = fixed ? fixed : __ai_pick("len", max + 1);
    auto *sym = static_cast<uint8_t *>(__ai_buffer("text", 8));
    uint8_t text[64];
    for (size_t i = 0; i < prefix; i++) text[i] = 'a';
    // four bytes are only interesting behind a lead byte of four
    if (len == 4) __ai_assume(sym[0] >= 0xf0);
    for (size_t i = 0; i < len; i++) text[prefix + i] = sym[i];
    for (size_t i = 0; i < suffix; i++) text[prefix + len + i] = 'z';
    const size_t n = prefix + len + suffix;
    if (way == 3)
        for (size_t i = 0; i < len; i++) __ai_assume(sym[i] != '"' && sym[i] != '\\');
    bool ok = false;
    uint8_t buf[128];
    switch (way)
    {
    case 0:
    {
        M m{};
        set(m, text, n);
        ok = encodes(m);
        break;
    }
    case 1:
    {
        ref::tag(0, number, 2);
        if (place == KEY || place == VALUE) ref::byte(0, uint8_t(n + 2)), ref::tag(0, place == KEY ? 1 : 2, 2);
        ref::varint(0, n);
        if (n) __ai_log(0, text, n);
        const size_t k = __ai_split(__ai_log_get(0, buf, sizeof buf));
        M r{};
        ok = __ai_pick("reader", 2) ? decode_reader(r, buf, k, {buf, k, 1000, 99}) : decode(r, buf, k);
        break;
    }
    case 2:
    {
        M m{};
        set(m, text, n);
        ok = jencodes(m);
        break;
    }
    default:
    {
        rj::put(0, place == ARRAY ? "{\"v\":[\"" : place == KEY ? "{\"v\":{\"" : place == VALUE ? "{\"v\":{\"1\":\"" : "{\"v\":\"");
        if (n) __ai_log(0, text, n);
        rj::put(0, place == ARRAY ? "\"]}" : place == KEY ? "\":true}}" : place == VALUE ? "\"}}" : "\"}");
        const size_t k = __ai_split(__ai_log_get(0, buf, sizeof buf));
        M r{};
        ok = __ai_pick("reader", 2) ? jdecode_reader(r, {buf, k, 1000, 99}) : jdecode(r, buf, k);
    }
    }
    static const char *const what[] = {"protobuf encoding accepts exactly UTF-8", "protobuf decoding accepts exactly UTF-8", "JSON encoding accepts exactly UTF-8", "JSON decoding accepts exactly UTF-8"};
    if (ok) __ai_assert(rfc3629(text, n), what[way]);
    else __ai_assert(!rfc3629(text, n), what[way]);
    __ai_cover("done");
}
