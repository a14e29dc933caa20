// structure of JSON texts: white space, tokens, unknown members, cut texts
#pragma once
#include "jtext.h"
struct text_buf
{
    uint8_t p[768];
    size_t n = 0;
    void put(std::string_view s)
    {
        if (s.size()) memcpy(p + n, s.data(), s.size());
        n += s.size();
    }
    void put(uint8_t c) { p[n++] = c; }
    // another one behind the message must never be looked at
    template <class M> bool decode(M &m, bool reader, size_t *used = nullptr) const
    {
        return reader ? jdecode_reader(m, {p, n, 1000, 99}, used) : jdecode(m, exact(p, n), n, used);
    }
};
inline bool white(unsigned c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
// any white space between any two tokens changes nothing
template <class M, size_t N, class E> static void spaced(const char *const (&tokens)[N], size_t from, size_t to, E eq)
{
    M base{};
    text_buf t;
    for (auto s : tokens) t.put(s);
    const bool ok0 = t.decode(base, false);
    __ai_assert(ok0, "the text is accepted");
    const size_t gap = from + __ai_pick("gap", to - from);
    const size_t count = 1 + __ai_pick("more", 2);
    const bool reader = __ai_pick("reader", 2);
    auto *p = static_cast<uint8_t *>(__ai_buffer("white", 2));
    t.n = 0;
    for (size_t i = 0; i <= N; i++)
    {
        if (i == gap)
            for (size_t j = 0; j < count; j++)
            {
                __ai_assume(p[j] == ' ' || p[j] == '\t' || p[j] == '\n' || p[j] == '\r');
                t.put(p[j]);
            }
        if (i < N) t.put(tokens[i]);
    }
    M r{};
    const bool ok = t.decode(r, reader);
    __ai_assert(ok, "white space is accepted between tokens");
    if (ok0 && ok) eq(base, r);
    __ai_cover("done");
}
// a token removed, doubled or with another first character: only JSON is accepted
template <class M, size_t N> static void broken(const char *const (&tokens)[N], size_t from, size_t to)
{
    const size_t at = from + __ai_pick("token", to - from);
    const size_t op = __ai_pick("change", 4);
    const bool reader = __ai_pick("reader", 2);
    auto *p = static_cast<uint8_t *>(__ai_buffer("other", 1));
    text_buf t;
    for (size_t i = 0; i < N; i++)
    {
        const std::string_view s = tokens[i];
        if (i != at) t.put(s);
        else if (op == 0) continue;
        else if (op == 1) t.put(s), t.put(s);
        else
        {
            // no other white space than that of JSON, and no controls in strings
            __ai_assume(p[0] >= 0x20);
            if (op == 2) t.put(p[0]), t.put(s.substr(1));
            else t.put(s.substr(0, s.size() - 1)), t.put(p[0]);
        }
    }
    M r{};
    const bool ok = t.decode(r, reader);
    rj::parser x{t.p, t.n};
    x.lenient = true; // nothing is claimed about the syntax of numbers
    if (!x.value()) __ai_assert(!ok, "what is not JSON is rejected");
    __ai_cover("done");
}
// the text cut at any position
template <class M> static void cut(std::string_view text)
{
    const size_t k = __ai_pick("cut", text.size());
    M r{};
    text_buf t;
    t.put(text.substr(0, k));
    __ai_assert(!t.decode(r, __ai_pick("reader", 2)), "a cut text is rejected");
    __ai_cover("done");
}
// any few bytes behind the head: nothing outside the text is read, and the decoder comes to an end
template <class M> static void any_tail(std::string_view head, size_t count, bool reader)
{
    text_buf t;
    t.put(head);
    auto *p = static_cast<uint8_t *>(__ai_buffer("byte", 8));
    for (size_t i = 0; i < count; i++) t.put(p[i]);
    M r{};
    size_t used = 0;
    const bool ok = t.decode(r, reader, &used);
    if (ok) __ai_assert(used <= t.n, "no more than the text is consumed");
    __ai_cover("done");
}
// an unknown member with the value inserted anywhere
template <class M, size_t N, size_t V, class E> static void unknown_member(const char *const (&parts)[N], const char *const (&values)[V], E eq, bool all = false)
{
    M base{};
    text_buf t;
    for (auto s : parts) t.put(s);
    const bool ok0 = t.decode(base, false);
    __ai_assert(ok0, "the text is accepted");
    // a part that ends with '{' or starts with '}' or ',' gives the place
    const size_t at = __ai_pick("place", N - 1);
    const std::string_view before = parts[at], after = parts[at + 1];
    const bool first = before.back() == '{', last = after.front() == '}';
    static const char *const keys[] = {"\"\"", "\"u\"", "\"\\u0041\\\"\\\\b\"", "\"an unknown name that is longer than the names of all fields of the message\""};
    const bool reader = __ai_pick("reader", 2);
    // all pairs, or every key with one value and every value with one key
    const size_t k = all ? __ai_pick("key", 4) : 1, v = __ai_pick("value", all ? V : V + 4);
    const std::string_view key = keys[v < V ? k : v - V], value = values[v < V ? v : V - 10];
    const bool space = __ai_pick("space", 2);
    t.n = 0;
    for (size_t i = 0; i <= at; i++) t.put(parts[i]);
    if (!first) t.put(",");
    t.put(key);
    t.put(space ? " :\n" : ":");
    t.put(value);
    if (space) t.put("\t ");
    if (first && !last) t.put(",");
    for (size_t i = at + 1; i < N; i++) t.put(parts[i]);
    M r{};
    size_t used = 0;
    const bool ok = t.decode(r, reader, &used);
    __ai_assert(ok, "unknown members are accepted");
    if (ok) __ai_assert(used == t.n, "the text is consumed");
    if (ok0 && ok) eq(base, r);
    __ai_cover("done");
}
// an unknown string (as value or key) of any characters
template <class M, class E> static void unknown_string(bool is_key, size_t count, std::string_view pad, E eq)
{
    M base{};
    text_buf t;
    t.put("{\"v\":1}");
    const bool ok0 = t.decode(base, false);
    __ai_assert(ok0, "the text is accepted");
    const bool reader = __ai_pick("reader", 2);
    t.n = 0;
    t.put(is_key ? "{" : "{\"q\":");
    const size_t at = t.n;
    t.put("\"");
    t.put(pad);
    auto *p = static_cast<uint8_t *>(__ai_buffer("char", 8));
    for (size_t i = 0; i < count; i++)
    {
        __ai_assume(p[i] >= 0x20);
        t.put(p[i]);
    }
    t.put("\"");
    const size_t end = t.n;
    t.put(is_key ? ":3,\"v\":1}" : ",\"v\":1}");
    M r{};
    const bool ok = t.decode(r, reader);
    // not the name of a field
    if (is_key && pad.empty()) __ai_assume(p[0] != 'v');
    rj::parser x{t.p, t.n, at};
    if (!x.string() || x.i != end) return;
    __ai_assert(ok, "unknown members are accepted");
    if (ok0 && ok) eq(base, r);
    __ai_cover("done");
}
// values in unknown members that are no JSON
template <class M, size_t V> static void unknown_bad(const char *const (&values)[V])
{
    const char *const *v = &values[__ai_pick("value", V)];
    const bool reader = __ai_pick("reader", 2);
    text_buf t;
    t.put("{\"u\":");
    t.put(*v);
    t.put(",\"v\":1}");
    M r{};
    const bool ok = t.decode(r, reader);
    __ai_assert(!ok, "an unknown member that is not JSON is rejected");
    __ai_cover("done");
}
