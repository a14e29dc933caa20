// Reference model of the JSON mapping (ProtoJSON, RFC 8259, RFC 4648): printer, validator and string decoder.
#pragma once
#include "json.h"
#include <charconv>
#include <cmath>
namespace rj
{
// ---- values the mapping is compared on: the limits of every type
template <class T> T pick_value(const char *n)
{
    if constexpr (std::is_same_v<T, bool>) return __ai_any(n, 1) & 1;
    else if constexpr (std::is_enum_v<T>)
    {
        static const int32_t v[] = {0, 1, 2147483647, -1};
        return T(v[__ai_pick(n, 4)]);
    }
#ifdef REF_FEW
    else if constexpr (std::is_floating_point_v<T>) return __ai_pick(n, 2) ? T(-2.5) : T(0);
    else
    {
        static const T v[] = {T(0), std::numeric_limits<T>::min(), std::numeric_limits<T>::max()};
        return v[__ai_pick(n, 3)];
    }
#else
    else if constexpr (std::is_floating_point_v<T>)
    {
        static const T v[] = {T(0), T(-2.5), T(1048577), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN()};
        return v[__ai_pick(n, 6)];
    }
    else
    {
        static const T v[] = {T(0), T(7), std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), T(std::numeric_limits<T>::max() / 10), T(std::is_signed_v<T> ? -10 : 100)};
        return v[__ai_pick(n, 6)];
    }
#endif
}
template <class T> T pick_bits(const char *n, int bits, bool s)
{
    const uint64_t one = 1, top = bits == 64 ? ~uint64_t(0) : (one << bits) - 1;
    const uint64_t lo = s ? ~uint64_t(0) << (bits - 1) : 0, hi = s ? top >> 1 : top;
    const uint64_t v[] = {0, lo, hi};
    return T(v[__ai_pick(n, 3)]);
}
// ---- printer
inline void unsigned_(int ch, uint64_t v)
{
    char b[24];
    int n = 0;
    do b[n++] = char('0' + v % 10);
    while (v /= 10);
    while (n) put(ch, b[--n]);
}
inline void signed_(int ch, int64_t v)
{
    if (v < 0) put(ch, '-');
    unsigned_(ch, v < 0 ? 0 - uint64_t(v) : uint64_t(v));
}
inline void hex4(int ch, unsigned v)
{
    put(ch, "\\u");
    for (int i = 12; i >= 0; i -= 4)
    {
        const unsigned d = (v >> i) & 15;
        put(ch, char(d < 10 ? '0' + d : 'a' + d - 10));
    }
}
template <class S> void text(int ch, const S &s)
{
    put(ch, '"');
    for (size_t i = 0; i < s.size(); i++)
    {
        const auto c = uint8_t(s.data()[i]);
        switch (c)
        {
        case '"': put(ch, "\\\""); break;
        case '\\': put(ch, "\\\\"); break;
        case '\b': put(ch, "\\b"); break;
        case '\f': put(ch, "\\f"); break;
        case '\n': put(ch, "\\n"); break;
        case '\r': put(ch, "\\r"); break;
        case '\t': put(ch, "\\t"); break;
        default:
            if (c < 0x20) hex4(ch, c);
            else put(ch, char(c));
        }
    }
    put(ch, '"');
}
inline void name(int ch, const char *s)
{
    put(ch, '"');
    put(ch, s);
    put(ch, "\":");
}
template <class E> void enumerator(int ch, E v)
{
    switch (int32_t(v))
    {
    case 0: return put(ch, "\"E_ZERO\"");
    case 1: return put(ch, "\"E_ONE\"");
    case -1: return put(ch, "\"E_NEG\"");
    default: return put(ch, "\"E_BIG\"");
    }
}
template <ref::Kind K, class T> void value(int ch, const T &v)
{
    using namespace ref;
    if constexpr (K == STRING) text(ch, v);
    else if constexpr (K == BYTES)
    {
        put(ch, '"');
        base64(ch, reinterpret_cast<const uint8_t *>(v.data()), v.size());
        put(ch, '"');
    }
    else if constexpr (K == BOOL) put(ch, v ? "true" : "false");
    else if constexpr (K == ENUM) enumerator(ch, v);
    else if constexpr (K == FLOAT || K == DOUBLE)
    {
        if (v != v) put(ch, "\"NaN\"");
        else if (v == T(0)) put(ch, "0");
        else if (v == T(-2.5)) put(ch, "-2.5");
        else if (v == T(1048577)) put(ch, "1048577");
        else put(ch, v < 0 ? "\"-Infinity\"" : "\"Infinity\"");
    }
    else if constexpr (K == INT32 || K == INT64 || K == SINT32 || K == SINT64 || K == SFIXED32 || K == SFIXED64) signed_(ch, int64_t(v));
    else unsigned_(ch, uint64_t(v));
}
// keys of maps are strings
template <ref::Kind K, class T> void key(int ch, const T &v)
{
    if constexpr (K == ref::STRING) text(ch, v);
    else
    {
        put(ch, '"');
        value<K>(ch, v);
        put(ch, '"');
    }
}
// writes the commas between the members of an object
struct object
{
    int ch;
    bool first = true;
    explicit object(int c) : ch(c) { put(ch, '{'); }
    void member(const char *n)
    {
        if (!first) put(ch, ',');
        first = false;
        name(ch, n);
    }
    ~object() { put(ch, '}'); }
};

// ---- RFC 8259: does the text start with a JSON value, and where does it end
struct parser
{
    const uint8_t *p;
    size_t n, i = 0;
    bool lenient = false;  // numbers like 007, .5 and 1. are let through
    bool one_byte = false; // hex digits are functions of one byte each: no cases needed
    int at() const { return i < n ? p[i] : -1; }
    void ws()
    {
        while (i < n && (p[i] == ' ' || p[i] == '\t' || p[i] == '\n' || p[i] == '\r')) i++;
    }
    bool lit(const char *s)
    {
        for (; *s; s++, i++)
            if (at() != *s) return false;
        return true;
    }
    bool digits()
    {
        if (at() < '0' || at() > '9') return false;
        while (at() >= '0' && at() <= '9') i++;
        return true;
    }
    bool number()
    {
        if (at() == '-') i++;
        if (lenient)
        {
            const bool whole = digits();
            bool part = false;
            if (at() == '.') i++, part = digits();
            if (!whole && !part) return false;
        }
        else if (at() == '0') i++;
        else if (!digits()) return false;
        if (!lenient && at() == '.')
        {
            i++;
            if (!digits()) return false;
        }
        if (at() == 'e' || at() == 'E')
        {
            i++;
            if (at() == '+' || at() == '-') i++;
            if (!digits()) return false;
        }
        return true;
    }
    int hex()
    {
        if (i >= n) return -1;
        const unsigned c = p[i];
        if (!one_byte)
        {
            i++;
            if (c >= '0' && c <= '9') return int(c - '0');
            if (c >= 'a' && c <= 'f') return int(c - 'a' + 10);
            if (c >= 'A' && c <= 'F') return int(c - 'A' + 10);
            return -1;
        }
        if (!(unsigned(c - '0' < 10u) | unsigned((c | 32u) - 'a' < 6u))) return -1;
        i++;
        return int((c & 15) + 9 * (c >> 6));
    }
    int unit()
    {
        int v = 0;
        for (int k = 0; k < 4; k++)
        {
            const int h = hex();
            if (h < 0) return -1;
            v = v << 4 | h;
        }
        return v;
    }
    // decodes to out (if any); false: not a JSON string, or a lone surrogate
    bool string(uint8_t *out = nullptr, size_t *size = nullptr)
    {
        size_t m = 0;
        auto add = [&](unsigned b) {
            if (out) out[m] = uint8_t(b);
            m++;
        };
        if (at() != '"') return false;
        i++;
        for (;;)
        {
            if (i >= n) return false;
            const unsigned c = p[i++];
            if (c == '"') break;
            if (c < 0x20) return false;
            if (c != '\\')
            {
                add(c);
                continue;
            }
            if (i >= n) return false;
            switch (p[i++])
            {
            case '"': add('"'); break;
            case '\\': add('\\'); break;
            case '/': add('/'); break;
            case 'b': add(8); break;
            case 'f': add(12); break;
            case 'n': add(10); break;
            case 'r': add(13); break;
            case 't': add(9); break;
            case 'u':
            {
                int u = unit();
                if (u < 0) return false;
                if (u >= 0xdc00 && u <= 0xdfff) return false;
                if (u >= 0xd800 && u <= 0xdbff)
                {
                    if (!lit("\\u")) return false;
                    const int l = unit();
                    if (l < 0xdc00 || l > 0xdfff) return false;
                    u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                }
                if (u < 0x80) add(unsigned(u));
                else if (u < 0x800) add(0xc0u | unsigned(u) >> 6), add(0x80u | (unsigned(u) & 63));
                else if (u < 0x10000) add(0xe0u | unsigned(u) >> 12), add(0x80u | (unsigned(u) >> 6 & 63)), add(0x80u | (unsigned(u) & 63));
                else add(0xf0u | unsigned(u) >> 18), add(0x80u | (unsigned(u) >> 12 & 63)), add(0x80u | (unsigned(u) >> 6 & 63)), add(0x80u | (unsigned(u) & 63));
                break;
            }
            default: return false;
            }
        }
        if (size) *size = m;
        return true;
    }
    bool value()
    {
        ws();
        bool ok = false;
        switch (at())
        {
        case '{':
            i++;
            ws();
            if (at() == '}')
            {
                i++;
                ok = true;
                break;
            }
            for (;;)
            {
                ws();
                if (!string()) return false;
                ws();
                if (at() != ':') return false;
                i++;
                if (!value()) return false;
                if (at() == ',')
                {
                    i++;
                    continue;
                }
                if (at() != '}') return false;
                i++;
                ok = true;
                break;
            }
            break;
        case '[':
            i++;
            ws();
            if (at() == ']')
            {
                i++;
                ok = true;
                break;
            }
            for (;;)
            {
                if (!value()) return false;
                if (at() == ',')
                {
                    i++;
                    continue;
                }
                if (at() != ']') return false;
                i++;
                ok = true;
                break;
            }
            break;
        case '"': ok = string(); break;
        case 't': ok = lit("true"); break;
        case 'f': ok = lit("false"); break;
        case 'n': ok = lit("null"); break;
        default: ok = number();
        }
        if (ok) ws();
        return ok;
    }
};
inline bool is_json(const uint8_t *p, size_t n)
{
    parser x{p, n};
    return x.value() && x.i == n;
}
} // namespace rj
