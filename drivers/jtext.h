// strings in JSON: escaping on output, unescaping on input
#pragma once
#include "text.h"
#include "jref.h"
static constexpr const char *text_head(Place p) { return p == ARRAY ? "{\"v\":[" : p == KEY ? "{\"v\":{" : p == VALUE ? "{\"v\":{\"1\":" : "{\"v\":"; }
static constexpr const char *text_tail(Place p) { return p == ARRAY ? "]}" : p == KEY ? ":true}}" : p == VALUE ? "}}" : "}"; }
// one code point of each length, two ASCII characters; all valid
static size_t any_utf8(uint8_t *out, int cls)
{
    auto *p = static_cast<uint8_t *>(__ai_buffer("text", 4));
    static const size_t len[] = {1, 2, 2, 3, 4};
    const size_t n = len[cls];
    auto cont = [&](size_t i, unsigned lo = 0x80, unsigned hi = 0xbf) { __ai_assume(p[i] >= lo && p[i] <= hi); };
    switch (cls)
    {
    case 0: __ai_assume(p[0] < 0x80); break;
    case 1: __ai_assume(p[0] < 0x80); __ai_assume(p[1] < 0x80); break;
    case 2: cont(0, 0xc2, 0xdf); cont(1); break;
    case 3:
        switch (__ai_pick("lead", 3))
        {
        case 0: __ai_assume(p[0] == 0xe0); cont(1, 0xa0); break;
        case 1: __ai_assume(p[0] == 0xed); cont(1, 0x80, 0x9f); break;
        default: cont(0, 0xe1, 0xef); __ai_assume(p[0] != 0xed); cont(1); break;
        }
        cont(2);
        break;
    default:
        switch (__ai_pick("lead", 3))
        {
        case 0: __ai_assume(p[0] == 0xf0); cont(1, 0x90); break;
        case 1: __ai_assume(p[0] == 0xf4); cont(1, 0x80, 0x8f); break;
        default: cont(0, 0xf1, 0xf3); cont(1); break;
        }
        cont(2);
        cont(3);
        __ai_note("plane", __ai_split(unsigned(p[0] & 7) << 2 | (p[1] >> 4 & 3)));
    }
    for (size_t i = 0; i < n; i++) out[i] = p[i];
    return n;
}
// the text is written as a JSON string of exactly the same characters
template <class M, class S> static void written(int cls, size_t prefix, size_t suffix, Place place, S set)
{
    uint8_t text[700], dec[700];
    for (size_t i = 0; i < prefix; i++) text[i] = 'a';
    size_t n = prefix + any_utf8(text + prefix, cls);
    for (size_t i = 0; i < suffix; i++) text[n++] = 'z';
    M m{};
    set(m, text, n);
    bool ok = true;
    try
    {
        spb::json::serialize(m, spb::io::writer(ref::log_writer{0}));
    }
    catch (...)
    {
        ok = false;
    }
    __ai_assert(ok, "valid UTF-8 is written");
    __ai_cover("done");
    if (!ok) return;
    uint8_t buf[1024];
    const size_t k = __ai_split(__ai_log_get(0, buf, sizeof buf));
    const std::string_view head = text_head(place), tail = text_tail(place);
    bool same = k > head.size();
    for (size_t i = 0; same && i < head.size(); i++) same = buf[i] == uint8_t(head[i]);
    __ai_assert(same, "JSON in front of the text");
    if (!same) return;
    rj::parser x{buf, k, head.size()};
    size_t used = 0;
    const bool str = x.string(dec, &used);
    __ai_assert(str, "the text is a JSON string");
    if (!str) return;
    __ai_assert(used == n, "length of the text in JSON");
    if (used == n)
    {
        unsigned d = 0;
        for (size_t i = 0; i < n; i++) d |= dec[i] ^ text[i];
        __ai_assert(d == 0, "characters of the text in JSON");
    }
    __ai_assert(k - x.i == tail.size(), "JSON behind the text");
    if (k - x.i == tail.size())
        for (size_t i = 0; i < tail.size(); i++) __ai_assert(buf[x.i + i] == uint8_t(tail[i]), "JSON behind the text");
}
enum Escape { SIMPLE, UNIT, PAIR, PAIR_BITS, PAIR_TAIL, EDGES, RAW };
// any escape sequence between plain text; get(m, p, n): the decoded text is these bytes
template <class M, class G> static void unescaped(Escape kind, size_t prefix, size_t suffix, Place place, G same)
{
    uint8_t text[700], dec[700];
    size_t n = 0;
    const size_t start = n;
    auto put = [&](std::string_view s) {
        for (char c : s) text[n++] = uint8_t(c);
    };
    put(text_head(place));
    const size_t at = n;
    put("\"");
    for (size_t i = 0; i < prefix; i++) text[n++] = 'a';
    auto *p = static_cast<uint8_t *>(__ai_buffer("escape", 8));
    switch (kind)
    {
    case SIMPLE: // backslash and any byte
        __ai_assume(p[0] != 'u');
        put("\\");
        text[n++] = p[0];
        break;
    case UNIT: // \u and any four bytes
        put("\\u");
        for (int i = 0; i < 4; i++) text[n++] = p[i];
        break;
    case PAIR: // two units: every kind of each
        __ai_assume(p[0] >= '8' && (p[0] <= '9' || (p[0] >= 'a' && p[0] <= 'f')));
        __ai_assume(p[1] == 'd' || p[1] == 'e' || p[1] == '0');
        __ai_assume((p[2] >= '0' && p[2] <= '9') || (p[2] >= 'A' && p[2] <= 'F'));
        put("\\uD");
        text[n++] = p[0];
        put("5C\\u");
        text[n++] = p[1];
        text[n++] = p[2];
        put("9b");
        break;
    case PAIR_BITS: // a pair: the other digits
        for (int i = 0; i < 2; i++) __ai_assume((p[i] >= '0' && p[i] <= '9') || (p[i] >= 'a' && p[i] <= 'f'));
        put("\\ud");
        put(__ai_pick("plane", 2) ? "a" : "8");
        text[n++] = p[0];
        put("4\\uDc");
        text[n++] = p[1];
        put("2");
        break;
    case PAIR_TAIL: // a high surrogate and whatever
        put("\\ud83d");
        for (int i = 0; i < 2; i++) text[n++] = p[i];
        put("dE00");
        break;
    case EDGES: // the ends of every range of units
    {
        static const char *const unit[] = {"0000", "007f", "0080", "07fF", "0800", "d7ff", "d800", "d801", "dbfe", "dBfF", "dc00", "dc01", "dffe", "dFFf", "e000", "fffF"};
        put("\\u");
        put(unit[__ai_pick("first", 16)]);
        if (__ai_pick("two", 2))
        {
            put("\\u");
            put(unit[__ai_pick("second", 16)]);
        }
        break;
    }
    default: // any two bytes that are no escape
        for (int i = 0; i < 2; i++)
        {
            __ai_assume(p[i] != '\\' && p[i] != '"' && p[i] >= 0x20);
            text[n++] = p[i];
        }
    }
    for (size_t i = 0; i < suffix; i++) text[n++] = 'z';
    put("\"");
    put(text_tail(place));
    M r{};
    (void)start;
    const bool ok = __ai_pick("reader", 2) ? jdecode_reader(r, {text, n, 1000, 99}) : jdecode(r, exact(text, n), n);
    rj::parser x{text, n, at, true};
    size_t size = 0;
    const bool valid = x.string(dec, &size) && (kind == UNIT || kind == PAIR || kind == PAIR_BITS || rfc3629(dec, size));
    // a quote in the middle leaves garbage behind the string
    const bool whole = valid && x.i + std::string_view(text_tail(place)).size() == n;
    if (whole)
    {
        __ai_assert(ok, "a JSON string is accepted");
        if (ok) __ai_assert(same(r, dec, size), "the text of the JSON string");
    }
    else __ai_assert(!ok, "what is no JSON string is rejected");
    __ai_cover("done");
}
// a floating point number: exactly the shortest decimal text, NaN and infinities by name
template <class M, class T, class S> static void number_text(const char *head, const char *tail, S set)
{
    const T v = ref::any_value<T>("value");
    M m{};
    set(m, v);
    rj::put(1, head);
    if (std::isnan(v)) rj::put(1, "\"NaN\"");
    else if (std::isinf(v)) rj::put(1, v < 0 ? "\"-Infinity\"" : "\"Infinity\"");
    else
    {
        char b[32];
        const auto r = std::to_chars(b, b + sizeof b, v);
        for (const char *p = b; p != r.ptr; ++p) rj::put(1, *p);
    }
    rj::put(1, tail);
    spb::json::serialize(m, spb::io::writer(ref::log_writer{0}));
    __ai_assert_logs(0, 1, "text of the number");
    __ai_cover("done");
}
