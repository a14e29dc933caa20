// bytes so long that lengths, prefixes and sizes need up to five varint bytes
#pragma once
#include "ref.h"
static uint64_t big_size()
{
    static const uint64_t at[] = {1ull << 7, 1ull << 14, 1ull << 21, 1ull << 28};
    return at[__ai_pick("power", 4)] + __ai_pick("offset", 14) - 11;
}
template <class V> static void long_bytes(V &v)
{
    v.n = big_size();
    v.p = static_cast<std::byte *>(__ai_blob("content", v.n));
}
template <class M, class R> static void big_output(const M &m, R put)
{
    const size_t n = spb::pb::serialize_size(m);
    put(1, m);
    __ai_assert(n == __ai_log_size(1), "predicted size of a long message");
    __ai_assert(spb::pb::serialize(m, spb::io::writer(ref::log_writer{0})) == n, "returned size of a long message");
    __ai_assert_logs(0, 1, "bytes of a long message");
    __ai_cover("done");
}
template <class M, class R> static void big_framed(const M &m, R put)
{
    ref::delimited(1, 9, [&](int ch) { put(ch, m); });
    const size_t n = spb::pb::serialize_size(m, {.delimited = true});
    __ai_assert(n == __ai_log_size(1), "predicted size of a long delimited message");
    __ai_assert(spb::pb::serialize(m, spb::io::writer(ref::log_writer{0}), {.delimited = true}) == n, "returned size of a long delimited message");
    __ai_assert_logs(0, 1, "bytes of a long delimited message");
    __ai_cover("done");
}
