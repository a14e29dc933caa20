// wire-level fields that are not what the schema says
#pragma once
// payload of a wire type; a group is empty
static inline void payload(int ch, int wt, uint32_t number)
{
    switch (wt)
    {
    case 0:
    {
        const size_t n = __ai_pick("vlen", 3);
        auto *p = static_cast<uint8_t *>(__ai_buffer("v", 12));
        const size_t len = n == 2 ? 10 : n + 1;
        for (size_t i = 0; i + 1 < len; i++) ref::byte(ch, p[i] | 0x80);
        ref::byte(ch, len == 10 ? p[9] & 1 : p[len - 1] & 0x7f);
        break;
    }
    case 1: __ai_log(ch, __ai_buffer("f8", 8), 8); break;
    case 5: __ai_log(ch, __ai_buffer("f4", 4), 4); break;
    case 2:
    {
        const size_t n = __ai_pick("len", 3);
        ref::varint(ch, n);
        if (n) __ai_log(ch, __ai_buffer("l", 2), n);
        break;
    }
    case 3: ref::tag(ch, number, 4); break;
    default: break;
    }
}
static inline uint32_t unknown_number()
{
    static const uint32_t numbers[] = {6, 19, 5000, 536870911};
    return numbers[__ai_pick("number", 4)];
}
static inline void unknown_field(int ch)
{
    static const int wts[] = {0, 1, 2, 5};
    const int wt = wts[__ai_pick("wire_type", 4)];
    const uint32_t number = unknown_number();
    ref::tag(ch, number, wt);
    payload(ch, wt, number);
}
template <class M, class E> static void wrong_wire_type(uint32_t number, unsigned good, E eq)
{
    const int wt = int(__ai_pick("wire_type", 8));
    if ((good >> wt) & 1) return;
    ref::tag(0, number, wt);
    payload(0, wt, number);
    uint8_t buf[64];
    const size_t n = __ai_log_get(0, buf, sizeof buf);
    M m{}, r{};
    bool ok = true;
    try { spb::pb::deserialize(r, buf, n); } catch (...) { ok = false; }
    if (ok) eq(m, r);
    if (wt == 3 || wt == 4 || wt > 5) __ai_assert(!ok, "groups and undefined wire types are rejected");
    __ai_cover("done");
}
template <class M, class K, class R, class E> static void unknown_before(K mk, R put, E eq)
{
    M m{}, r{};
    mk(m);
    unknown_field(0);
    put(0, m);
    uint8_t buf[64];
    const size_t n = __ai_log_get(0, buf, sizeof buf);
    bool ok = true;
    try { spb::pb::deserialize(r, buf, n); } catch (...) { ok = false; }
    __ai_assert(ok, "an unknown field is accepted");
    if (ok) eq(m, r);
    __ai_cover("done");
}
template <class M, class K, class R, class E> static void unknown_after(K mk, R put, E eq)
{
    M m{}, r{};
    mk(m);
    put(0, m);
    unknown_field(0);
    uint8_t buf[64];
    const size_t n = __ai_log_get(0, buf, sizeof buf);
    bool ok = true;
    try { spb::pb::deserialize(r, buf, n); } catch (...) { ok = false; }
    __ai_assert(ok, "an unknown field is accepted");
    if (ok) eq(m, r);
    __ai_cover("done");
}
// truncated and malformed unknown fields
template <class M, class K, class R, class E> static void unknown_bad(K, R, E)
{
    const uint32_t number = unknown_number();
    uint8_t buf[64];
    size_t n;
    if (__ai_pick("truncated", 2))
    {
        static const int wts[] = {0, 1, 2, 5};
        const int wt = wts[__ai_pick("wire_type", 4)];
        ref::tag(0, number, wt);
        const size_t head = __ai_log_size(0);
        payload(0, wt, number);
        n = __ai_log_get(0, buf, sizeof buf);
        const size_t full = n;
        n = head + __ai_pick("cut", 13);
        if (n >= full) return;
    }
    else
    {
        static const int wts[] = {3, 4, 6, 7};
        const int wt = wts[__ai_pick("wire_type", 4)];
        ref::tag(0, number, wt);
        payload(0, wt, number);
        n = __ai_log_get(0, buf, sizeof buf);
    }
    auto *exact = new uint8_t[n];
    memcpy(exact, buf, n);
    M r{};
    bool ok = true;
    try { spb::pb::deserialize(r, exact, n); } catch (...) { ok = false; }
    __ai_assert(!ok, "a truncated unknown field, a group or an undefined wire type is rejected");
    __ai_cover("done");
}
// an unknown length delimited field with any 32 bit length
template <class M> static void unknown_length()
{
    ref::tag(0, 6, 2);
    const uint32_t len = uint32_t(__ai_any("length", 32));
    ref::varint(0, len);
    uint8_t buf[64];
    size_t n = __ai_log_get(0, buf, sizeof buf);
    const size_t head = n;
    for (int i = 0; i < 4; i++) buf[n++] = 0x10, buf[n++] = 5; // four times field 2
    auto *exact = new uint8_t[n];
    memcpy(exact, buf, n);
    M r{};
    bool ok = true;
    try { spb::pb::deserialize(r, exact, n); } catch (...) { ok = false; }
    (void)head;
    if (len > 8) __ai_assert(!ok, "a length over the end of the input is rejected");
    else if (len % 2 == 0)
    {
        __ai_assert(ok, "a length inside the input is skipped");
        __ai_assert(r.v == (len == 8 ? 0u : 5u), "the value behind the skipped field");
    }
    __ai_cover("done");
}
template <class M> static void zero_field()
{
    const int wt = int(__ai_pick("wire_type", 8));
    ref::tag(0, 0, wt);
    payload(0, wt, 0);
    uint8_t buf[64];
    const size_t n = __ai_log_get(0, buf, sizeof buf);
    M r{};
    bool ok = true;
    try { spb::pb::deserialize(r, buf, n); } catch (...) { ok = false; }
    __ai_assert(!ok, "field number 0 is rejected");
    __ai_cover("done");
    __ai_log_clear(0);
}
// tags of 1 to 6 bytes, minimal or not; the value of the field is one byte
template <class M> static void long_tag()
{
    const size_t n = 1 + __ai_pick("length", 7);
    auto *in = static_cast<uint8_t *>(__ai_buffer("tag", 8));
    uint64_t t = 0;
    for (size_t i = 0; i < n; i++)
    {
        __ai_assume((in[i] >> 7) == (i + 1 < n ? 1 : 0));
        if (i < 5) t |= uint64_t(in[i] & 0x7f) << (7 * i);
    }
    __ai_assume((in[0] & 7) == 0); // a varint field
    auto *exact = new uint8_t[n + 1];
    memcpy(exact, in, n);
    exact[n] = 9;
    M r{};
    bool ok = true;
    try { spb::pb::deserialize(r, exact, n + 1); } catch (...) { ok = false; }
    const bool valid = n <= 5 && t <= 0xffffffffu && (t >> 3) != 0;
    if (!valid) __ai_assert(!ok, "a tag over 32 bits or of field 0 is rejected");
    else
    {
        __ai_assert(ok, "any form of a valid tag is accepted");
        __ai_assert(r.v == ((t >> 3) == 2 ? 9u : 0u), "a tag names the field of its number only");
    }
    __ai_cover("done");
}
// several occurrences of a submessage (required a, optional b) are merged
template <class M, class S, class K, class P, class E, class G> static void merges(uint32_t number, K mk, P put, E eq, G get)
{
    S a{}, b{};
    mk(a);
    mk(b);
    for (const S *p : {&a, &b})
    {
        ref::tag(0, number, 2);
        ref::delimited(0, 9, [&](int ch) { put(ch, *p); });
    }
    if (!b.b.has_value() && a.b.has_value()) b.b.emplace() = *a.b;
    uint8_t buf[64];
    const size_t n = __ai_log_get(0, buf, sizeof buf);
    M r{};
    bool ok = true;
    try { spb::pb::deserialize(r, buf, n); } catch (...) { ok = false; }
    __ai_assert(ok, "a repeated submessage is accepted");
    if (ok) eq(b, get(r));
    __ai_cover("done");
}
