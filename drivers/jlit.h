// literals and numbers of JSON in a field: exactly the ones of its type and range
#pragma once
#include "jstruct.h"
struct lit_case
{
    const char *text;
    bool ok;
    uint64_t bits; // of the value
};
// head, value, tail
struct place
{
    const char *head, *tail;
};
// listed texts
template <class M, size_t N, size_t P, class G> static void listed(const lit_case (&cases)[N], const place (&places)[P], G get)
{
    const auto &c = cases[__ai_pick("case", N)];
    const auto &at = places[__ai_pick("place", P)];
    const bool reader = __ai_pick("reader", 2);
    text_buf t;
    t.put(at.head);
    t.put(c.text);
    t.put(at.tail);
    M r{};
    size_t used = 0;
    const bool ok = t.decode(r, reader, &used);
    if (c.ok)
    {
        __ai_assert(ok, "a value of the field's type is accepted");
        if (ok) __ai_assert(used == t.n, "the text is consumed");
        if (ok) __ai_assert(uint64_t(get(r)) == c.bits, "the value is the one of the text");
    }
    else __ai_assert(!ok, "a value that is not of the field's type or range is rejected");
    __ai_cover("done");
}
// a valid number or literal with any other character behind it
template <class M> static void garbage(std::string_view text, const place &at, bool number)
{
    const bool reader = __ai_pick("reader", 2), key = at.tail[0] == '"';
    auto *p = static_cast<uint8_t *>(__ai_buffer("char", 1));
    const unsigned c = p[0];
    text_buf t;
    t.put(at.head);
    t.put(text);
    t.put(p[0]);
    t.put(at.tail);
    if (number) __ai_assume(!(c >= '0' && c <= '9') && c != '.' && c != 'e' && c != 'E');
    if (!key) __ai_assume(c > 0x20 && c != ',' && c != '}' && c != ']');
    else __ai_assume(c != '"' && c != '\\' && c > 0x20);
    M r{};
    __ai_assert(!t.decode(r, reader), "a value with something behind it is rejected");
    __ai_cover("done");
}
// any characters: a bool is exactly true or false
template <class M, class G> static void any_bool(size_t n, const place &at, G get)
{
    const bool reader = __ai_pick("reader", 2), key = at.tail[0] == '"';
    auto *p = static_cast<uint8_t *>(__ai_buffer("char", 8));
    text_buf t;
    t.put(at.head);
    for (size_t i = 0; i < n; i++)
    {
        const unsigned c = p[i];
        __ai_assume(c > 0x20 && c != ',' && c != '}' && c != ']' && c != '"' && c != '\\');
        t.put(p[i]);
    }
    t.put(at.tail);
    M r{};
    const bool ok = t.decode(r, reader);
    const std::string_view s(reinterpret_cast<const char *>(p), n);
    const bool t_ = ref::same_text(s, std::string_view("true")), f_ = ref::same_text(s, std::string_view("false"));
    if (!key && ref::same_text(s, std::string_view("null"))) return;
    if (t_ || f_)
    {
        __ai_assert(ok, "true and false are accepted");
        if (ok) __ai_assert(get(r) == t_, "the value is the one of the text");
    }
    else __ai_assert(!ok, "only true and false are bools");
    __ai_cover("done");
}
// any characters: an integer is exactly the number of its digits
template <class M, class G> static void any_int(size_t n, const place &at, bool is_signed, int64_t lo, int64_t hi, G get)
{
    const bool reader = __ai_pick("reader", 2), key = at.tail[0] == '"';
    auto *p = static_cast<uint8_t *>(__ai_buffer("char", 8));
    text_buf t;
    t.put(at.head);
    for (size_t i = 0; i < n; i++)
    {
        const unsigned c = p[i];
        __ai_assume(c > 0x20 && c != ',' && c != '}' && c != ']' && c != '"' && c != '\\' && c != '[' && c != '{');
        // 1.0 and 1e3 may or may not be integers
        __ai_assume(c != '.' && c != 'e' && c != 'E');
        // one case per digit
        if (n > 2 && c >= '0' && c <= '9') __ai_note("digit", __ai_split(p[i]));
        t.put(p[i]);
    }
    t.put(at.tail);
    M r{};
    const bool ok = t.decode(r, reader);
    if (!key && n == 4 && ref::same_text(std::string_view(reinterpret_cast<const char *>(p), n), std::string_view("null"))) return;
    size_t i = 0;
    const bool neg = p[0] == '-';
    if (neg) i++;
    // -0 and leading zeros may or may not be accepted
    if (i < n && p[i] == '0' && (neg || n > i + 1))
    {
        __ai_cover("done");
        return;
    }
    bool good = i < n && (is_signed || !neg);
    int64_t v = 0;
    for (; i < n && good; i++)
    {
        good = p[i] >= '0' && p[i] <= '9';
        if (good) v = v * 10 + int64_t(__ai_split(p[i])) - '0';
    }
    if (neg) v = -v;
    good = good && v >= lo && v <= hi;
    if (good)
    {
        __ai_assert(ok, "an integer in range is accepted");
        if (ok) __ai_assert(int64_t(get(r)) == v, "the value is the one of the text");
    }
    else __ai_assert(!ok, "what is not an integer in range is rejected");
    __ai_cover("done");
}
