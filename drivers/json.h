// JSON side of the drivers: decoding helpers and reference text
#pragma once
#include "robust.h"
#include <spb/json.hpp>
namespace rj
{
inline void put(int ch, char c) { __ai_log_byte(ch, uint8_t(c)); }
inline void put(int ch, std::string_view s)
{
    if (s.size()) __ai_log(ch, s.data(), s.size());
}
inline void base64(int ch, const uint8_t *p, size_t n)
{
    static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    for (size_t i = 0; i < n; i += 3)
    {
        const unsigned a = p[i], b = i + 1 < n ? p[i + 1] : 0, c = i + 2 < n ? p[i + 2] : 0;
        put(ch, t[a >> 2]);
        put(ch, t[(a & 3) << 4 | b >> 4]);
        put(ch, i + 1 < n ? t[(b & 15) << 2 | c >> 6] : '=');
        put(ch, i + 2 < n ? t[c & 63] : '=');
    }
}
} // namespace rj
template <class M> static bool jdecode(M &r, const void *p, size_t n, size_t *used = nullptr)
{
    try
    {
        const size_t k = spb::json::deserialize(r, p, n);
        if (used) *used = k;
    }
    catch (...)
    {
        return false;
    }
    return true;
}
template <class M> static bool jdecode_reader(M &r, chunk_reader rd, size_t *used = nullptr)
{
    try
    {
        const size_t k = spb::json::deserialize(r, spb::io::reader(rd));
        if (used) *used = k;
    }
    catch (...)
    {
        return false;
    }
    return true;
}
template <class M> static bool jdecode_log(M &r, int ch)
{
    uint8_t buf[600];
    const size_t n = __ai_split(__ai_log_get(ch, buf, sizeof buf));
    return jdecode(r, exact(buf, n), n);
}
template <class M> static bool jdecode(M &r, std::string_view s) { return jdecode(r, exact(s.data(), s.size()), s.size()); }
// text of an arbitrary printable string without '"' and '\'
template <class S> static void any_plain(S &s, const char *n, size_t len)
{
    auto *p = static_cast<char *>(__ai_buffer(n, len ? len : 1));
    for (size_t i = 0; i < len; i++) __ai_assume(uint8_t(p[i]) >= 0x23 && uint8_t(p[i]) <= 0x5b);
    s.assign(p, p + len);
}
