// names of fields and enum values in JSON
#pragma once
#include "jtext.h"
// the message {"<key>":<value>}: which(m) is the index of the only field that is set, -1 if none
struct name_case
{
    const char *key;
    int field; // -1: no such field
};
inline void put_key(int ch, std::string_view key, int escape_at, bool upper)
{
    rj::put(ch, '"');
    for (size_t i = 0; i < key.size(); i++)
    {
        const auto c = uint8_t(key[i]);
        if (int(i) == escape_at && c < 0x80)
        {
            rj::put(ch, "\\u00");
            rj::put(ch, char('0' + (c >> 4)));
            rj::put(ch, "0123456789abcdef"[c & 15] & ~(upper && (c & 15) > 9 ? 0x20 : 0));
        }
        else rj::put(ch, char(c));
    }
    rj::put(ch, '"');
}
template <class M, size_t N, class W> static void name_read(const name_case (&cases)[N], const char *const *values, const char *other, W which)
{
    const auto &c = cases[__ai_pick("case", N)];
    const auto len = std::string_view(c.key).size();
    int escape = -1;
    if (c.field >= 0) escape = int(__ai_pick("escape", len + 1)) - 1;
    else if (len && __ai_pick("escape", 2)) escape = int(len - 1);
    rj::put(0, '{');
    put_key(0, c.key, escape, c.field >= 0 && __ai_pick("upper", 2));
    rj::put(0, ':');
    rj::put(0, c.field < 0 ? other : values[c.field]);
    rj::put(0, '}');
    uint8_t buf[128];
    const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    M r{};
    const bool ok = __ai_pick("reader", 2) ? jdecode_reader(r, {buf, n, 1000, 99}) : jdecode(r, exact(buf, n), n);
    __ai_assert(ok, "a member of any name is accepted");
    if (ok) __ai_assert(which(r) == c.field, c.field < 0 ? "a member that is no field is ignored" : "the member is stored in its field");
    __ai_cover("done");
}
// any key of n characters that is none of the names
template <class M, size_t N, class W> static void name_other(size_t n, const name_case (&names)[N], const char *value, W which)
{
    uint8_t buf[96];
    size_t k = 0;
    buf[k++] = '{';
    buf[k++] = '"';
    auto *p = static_cast<uint8_t *>(__ai_buffer("key", n ? n : 1));
    for (size_t i = 0; i < n; i++)
    {
        __ai_assume(p[i] >= 0x20 && p[i] != '"' && p[i] != '\\');
        buf[k++] = p[i];
    }
    for (const auto &c : names)
    {
        const std::string_view s = c.key;
        if (c.field < 0 || s.size() != n) continue;
        unsigned d = 0;
        for (size_t i = 0; i < n; i++) d |= p[i] ^ uint8_t(s[i]);
        __ai_assume(d != 0);
    }
    buf[k++] = '"';
    buf[k++] = ':';
    for (; *value; value++) buf[k++] = uint8_t(*value);
    buf[k++] = '}';
    M r{};
    const bool ok = __ai_pick("reader", 2) ? jdecode_reader(r, {buf, k, 1000, 99}) : jdecode(r, exact(buf, k), k);
    __ai_assert(ok, "a member that is no field is accepted");
    if (ok) __ai_assert(which(r) == -1, "a member that is no field is ignored");
    __ai_cover("done");
}
struct enum_case
{
    const char *text;
    bool good;
    int32_t value;
};
// enum values by name or number; get(m) of the message {head text tail}
template <class M, size_t N, class G> static void enum_read(const enum_case (&cases)[N], const char *head, const char *tail, G get)
{
    const auto &c = cases[__ai_pick("case", N)];
    rj::put(0, head);
    const std::string_view t = c.text;
    if (t.size() > 2 && t[0] == '"') put_key(0, t.substr(1, t.size() - 2), int(__ai_pick("escape", t.size() - 1)) - 1, false);
    else rj::put(0, t);
    rj::put(0, tail);
    uint8_t buf[128];
    const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    M r{};
    const bool ok = __ai_pick("reader", 2) ? jdecode_reader(r, {buf, n, 1000, 99}) : jdecode(r, exact(buf, n), n);
    if (c.good)
    {
        __ai_assert(ok, "an enum value is accepted by name and number");
        if (ok) __ai_assert(get(r) == c.value, "the enum value");
    }
    else __ai_assert(!ok, "what is no enum value is rejected");
    __ai_cover("done");
}
// any string of n characters that is no name of a value
template <class M, size_t N> static void enum_other(size_t n, const enum_case (&cases)[N], const char *head, const char *tail)
{
    uint8_t buf[96];
    size_t k = 0;
    for (; *head; head++) buf[k++] = uint8_t(*head);
    buf[k++] = '"';
    auto *p = static_cast<uint8_t *>(__ai_buffer("name", n ? n : 1));
    for (size_t i = 0; i < n; i++)
    {
        __ai_assume(p[i] >= 0x20 && p[i] != '"' && p[i] != '\\');
        buf[k++] = p[i];
    }
    for (const auto &c : cases)
    {
        const std::string_view s = c.text;
        if (!c.good || s.size() != n + 2 || s[0] != '"') continue;
        unsigned d = 0;
        for (size_t i = 0; i < n; i++) d |= p[i] ^ uint8_t(s[i + 1]);
        __ai_assume(d != 0);
    }
    buf[k++] = '"';
    for (; *tail; tail++) buf[k++] = uint8_t(*tail);
    M r{};
    const bool ok = __ai_pick("reader", 2) ? jdecode_reader(r, {buf, k, 1000, 99}) : jdecode(r, exact(buf, k), k);
    __ai_assert(!ok, "what is no enum value is rejected");
    __ai_cover("done");
}
template <class M> static void text_written(const M &m, const char *expected)
{
    rj::put(1, expected);
    spb::json::serialize(m, spb::io::writer(ref::log_writer{0}));
    __ai_assert_logs(0, 1, "names in the JSON text");
    __ai_cover("done");
}
