// truncated, malformed and chunked protobuf input
#pragma once
#include <spb/pb.hpp>
template <class M> static bool decode(M &r, const void *p, size_t n, size_t *used = nullptr)
{
    try
    {
        const size_t k = spb::pb::deserialize(r, p, n);
        if (used) *used = k;
    }
    catch (...)
    {
        return false;
    }
    return true;
}
static inline uint8_t *exact(const void *p, size_t n)
{
    auto *r = new uint8_t[n];
    if (n) memcpy(r, p, n);
    return r;
}
// delivers the input in pieces: at most `limit` bytes, one byte only at call number `at`
struct chunk_reader
{
    const uint8_t *p;
    size_t left, limit, at, calls = 0;
    size_t operator()(void *d, size_t n)
    {
        size_t k = n < left ? n : left;
        if (k > limit) k = limit;
        if (calls++ == at && k > 1) k = 1;
        if (k) memcpy(d, p, k);
        p += k;
        left -= k;
        return k;
    }
};
static inline chunk_reader chunks(const void *p, size_t n)
{
    static const size_t limits[] = {1, 2, 3, 1000};
    const size_t limit = limits[__ai_pick("chunk", 4)];
    return {static_cast<const uint8_t *>(p), n, limit, limit > 3 ? __ai_pick("short_at", 6) : 99};
}
template <class M> static bool decode_reader(M &r, const void *p, size_t n, chunk_reader rd, size_t *used = nullptr)
{
    try
    {
        const size_t k = spb::pb::deserialize(r, spb::io::reader(rd));
        if (used) *used = k;
    }
    catch (...)
    {
        return false;
    }
    return true;
}
// a message of one record, cut anywhere
template <class M, class K, class R> static void truncated(K mk, R put)
{
    M m{};
    mk(m);
    put(0, m);
    uint8_t buf[128];
    const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    __ai_cover("done");
    if (n == 0) return;
    const size_t k = __ai_pick("cut", n);
    auto *in = exact(buf, k);
    M r{};
    if (__ai_pick("reader", 2)) __ai_assert(decode_reader(r, in, k, {in, k, 1000, 99}) == (k == 0), "a record truncated by the reader is rejected");
    else __ai_assert(decode(r, in, k) == (k == 0), "a truncated record is rejected");
}
// any few bytes behind any tag of the field: no access outside the input, and everything is consumed
template <class M> static void garbage(uint32_t number, size_t max)
{
    const int wt = int(__ai_pick("wire_type", 6));
    ref::tag(0, number, wt);
    const size_t n = __ai_pick("size", max + 1);
    auto *p = static_cast<uint8_t *>(__ai_buffer("byte", 8));
    if (n) __ai_log(0, p, n);
    uint8_t buf[32];
    const size_t k = __ai_split(__ai_log_get(0, buf, sizeof buf));
    auto *in = exact(buf, k);
    M r{};
    size_t used = 0;
    if (decode(r, in, k, &used)) __ai_assert(used == k, "an accepted input is consumed completely");
    __ai_cover("done");
}
template <class M> static void raw(size_t max)
{
    const size_t n = __ai_pick("size", max + 1);
    auto *in = exact(__ai_buffer("byte", 8), n);
    M r{};
    size_t used = 0;
    if (decode(r, in, n, &used)) __ai_assert(used == n, "an accepted input is consumed completely");
    __ai_cover("done");
}
// what stands behind a length delimited record has no influence on it
template <class M, class E> static void confined(uint32_t number, size_t max, E eq)
{
    ref::tag(0, number, 2);
    const size_t n = __ai_pick("size", max + 1);
    ref::varint(0, n);
    auto *p = static_cast<uint8_t *>(__ai_buffer("byte", 8));
    if (n) __ai_log(0, p, n);
    uint8_t buf[48];
    const size_t k = __ai_split(__ai_log_get(0, buf, sizeof buf));
    ref::tag(0, 6, 0);
    ref::byte(0, 1);
    ref::tag(0, 6, 0);
    ref::byte(0, 0);
    uint8_t buf2[48];
    const size_t k2 = __ai_split(__ai_log_get(0, buf2, sizeof buf2));
    M a{}, b{};
    const bool x = decode(a, exact(buf, k), k), y = decode(b, exact(buf2, k2), k2);
    __ai_assert(x == y, "a record is accepted or rejected by its own bytes");
    if (x && y) eq(a, b);
    __ai_cover("done");
}
// nested messages decode as they do on their own
template <class M, class S, class G, class E> static void nested(uint32_t number, size_t max, G get, E eq)
{
    ref::tag(0, number, 2);
    const size_t n = __ai_pick("size", max + 1);
    ref::varint(0, n);
    auto *p = static_cast<uint8_t *>(__ai_buffer("byte", 8));
    if (n) __ai_log(0, p, n);
    ref::tag(0, 6, 0);
    ref::byte(0, 1);
    uint8_t buf[48];
    const size_t k = __ai_split(__ai_log_get(0, buf, sizeof buf));
    M a{};
    S s{};
    const bool x = decode(a, exact(buf, k), k), y = decode(s, exact(p, n), n);
    __ai_assert(x == y, "a nested message is accepted exactly if it is on its own");
    if (x && y) eq(get(a), s);
    __ai_cover("done");
}
// the same result through a reader, whatever the sizes of the chunks
template <class M, class K, class R, class E> static void chunked(K mk, R put, E eq)
{
    M m{};
    mk(m);
    put(0, m);
    uint8_t buf[128];
    const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    M r{};
    size_t used = 0;
    const bool ok = decode_reader(r, buf, n, chunks(buf, n), &used);
    __ai_assert(ok, "a valid input is accepted through a reader");
    if (ok)
    {
        __ai_assert(used == n, "the consumed size through a reader");
        eq(m, r);
    }
    __ai_cover("done");
}
// unknown fields and long fields of any kind in front of a known one, through any reader, cut or not
template <class M, class E> static void chunked_skip(uint32_t number, uint32_t last, bool nested, E eq)
{
    static const size_t sizes[] = {0, 1, 2, 5, 127, 128, 129, 255, 256, 257, 300}, limits[] = {1, 2, 3, 127, 129, 1000};
    const size_t wt = __ai_pick("wire_type", 4);
    ref::tag(1, number, wt == 3 ? 5 : int(wt));
    const uint8_t text[] = "abcdefgh";
    if (wt == 0) ref::varint(1, 300);
    if (wt == 1) __ai_log(1, text, 8);
    if (wt == 3) __ai_log(1, text, 4);
    if (wt == 2)
    {
        const size_t n = sizes[__ai_pick("size", 11)];
        ref::varint(1, n);
        for (size_t i = 0; i < n; i++) ref::byte(1, uint8_t(i) & 0x7f);
    }
    ref::field<ref::UINT32>(1, last, uint32_t(5));
    uint8_t body[340], buf[720];
    size_t n = __ai_split(__ai_log_get(1, body, sizeof body));
    if (nested)
    {
        ref::tag(0, 77, 2); // unknown as a whole
        ref::varint(0, n);
        __ai_log(0, body, n);
    }
    __ai_log(0, body, n);
    n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    if (__ai_pick("cut", 2)) n -= 3;
    const size_t limit = limits[__ai_pick("chunk", 6)];
    M a{}, b{};
    size_t ua = 0, ub = 0;
    const bool x = decode(a, buf, n, &ua);
    const bool y = decode_reader(b, buf, n, {buf, n, limit, limit == 1000 ? __ai_pick("short_at", 7) : 99}, &ub);
    __ai_assert(x == y, "reader and buffer accept the same inputs");
    if (x && y)
    {
        __ai_assert(ua == ub, "the consumed size through a reader");
        eq(a, b);
    }
    __ai_cover("done");
}
template <class M, class E> static void chunked_garbage(uint32_t number, size_t max, E eq)
{
    const int wt = int(__ai_pick("wire_type", 6));
    ref::tag(0, number, wt);
    const size_t n = __ai_pick("size", max + 1);
    auto *p = static_cast<uint8_t *>(__ai_buffer("byte", 8));
    if (wt == 2) __ai_assume(p[0] < 8); // the announced size
    if (n) __ai_log(0, p, n);
    uint8_t buf[32];
    const size_t k = __ai_split(__ai_log_get(0, buf, sizeof buf));
    M a{}, b{};
    const bool x = decode(a, buf, k), y = decode_reader(b, buf, k, chunks(buf, k));
    __ai_assert(x == y, "reader and buffer accept the same inputs");
    if (x && y) eq(a, b);
    __ai_cover("done");
}
// a record that announces any size of up to ten bytes that is not there
template <class M> static void announced(uint32_t number)
{
    ref::tag(0, number, 2);
    const size_t n = 1 + __ai_pick("size_bytes", 10);
    const auto *p = static_cast<uint8_t *>(__ai_buffer("size", 10));
    uint64_t size = 0;
    for (size_t i = 0; i < n; i++)
    {
        __ai_assume((p[i] >> 7) == (i + 1 < n ? 1 : 0));
        size |= uint64_t(p[i] & 0x7f) << (7 * i);
    }
    __ai_log(0, p, n);
    for (int i = 0; i < 6; i++) ref::byte(0, 0);
    uint8_t buf[48];
    const size_t k = __ai_split(__ai_log_get(0, buf, sizeof buf));
    M r{};
    const bool ok = decode(r, exact(buf, k), k);
    if (size > 6) __ai_assert(!ok, "a size over the end of the input is rejected");
    __ai_cover("done");
}
