// JSON through a reader: the same result as from a buffer, at every position of the internal buffer
#pragma once
#include "jstruct.h"
template <class M, class E> static void json_chunked(std::string_view text, size_t from, size_t to, bool white, bool cut, bool all, E eq)
{
    // the text starts at any of the given distances
    const size_t pad = from + __ai_pick("pad", to - from);
    text_buf t;
    if (white)
    {
        for (size_t i = 0; i < pad; i++) t.put(i % 7 == 3 ? '\n' : ' ');
        t.put(text);
    }
    else
    {
        t.put("{\"unknown\":\"");
        for (size_t i = 0; i < pad; i++) t.put(i % 9 == 4 ? '/' : 'x');
        t.put("\"");
        if (text[1] != '}') t.put(",");
        t.put(text.substr(1));
    }
    const size_t full = t.n;
    size_t n = full;
    if (cut) n = full - 1 - __ai_pick("cut", text.size() - 1);
    else t.put(" {\"next\":1}");
    if (!cut) n = t.n;
    M a{}, b{};
    size_t ua = 0, ub = 0;
    const bool oka = jdecode(a, exact(t.p, n), n, &ua);
    __ai_assert(oka == !cut, "complete messages are accepted from a buffer, cut ones rejected");
    static const size_t limits[] = {1000, 1, 3, 1000, 1000, 1000};
    static const size_t shorts[] = {99, 99, 99, 0, 1, 2};
    const size_t c = __ai_pick("chunk", all ? 6 : 4);
    const bool okb = jdecode_reader(b, {t.p, n, limits[c], shorts[c]}, &ub);
    __ai_assert(oka == okb, "the reader is accepted exactly like the buffer");
    if (oka && okb)
    {
        __ai_assert(ua == ub, "the consumed size from the reader and from the buffer");
        eq(a, b);
    }
    __ai_cover("done");
}
// long elements: the end of the internal buffer inside one, at every distance from its start
template <class M, class E> static void json_inside(std::string_view prefix, std::string_view fill, std::string_view suffix, size_t from, size_t to, bool all, E eq, bool valid = true)
{
    const size_t pad = from + __ai_pick("pad", to - from);
    text_buf t;
    t.put(prefix);
    for (size_t i = 0; i < pad; i++) t.put(fill.size() == 8 ? fill : fill.substr(i % fill.size(), 1));
    t.put(suffix);
    M a{}, b{};
    size_t ua = 0, ub = 0;
    const bool oka = jdecode(a, exact(t.p, t.n), t.n, &ua);
    static const size_t limits[] = {1000, 1, 3, 1000, 1000, 200};
    static const size_t shorts[] = {99, 99, 99, 0, 1, 99};
    const size_t c = __ai_pick("chunk", all ? 6 : 2);
    const bool okb = jdecode_reader(b, {t.p, t.n, limits[c], shorts[c]}, &ub);
    __ai_assert(oka == okb, "the reader is accepted exactly like the buffer");
    if (valid) __ai_assert(oka, "the text is accepted");
    if (oka && okb)
    {
        __ai_assert(ua == ub, "the consumed size from the reader and from the buffer");
        eq(a, b);
    }
    __ai_cover("done");
}
