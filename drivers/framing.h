// delimited messages
#pragma once
#include "robust.h"
template <class M> static bool decode_delimited(M &r, const void *p, size_t n, size_t &used)
{
    try
    {
        used = spb::pb::deserialize(r, p, n, {.delimited = true});
    }
    catch (...)
    {
        return false;
    }
    return true;
}
template <class M> static bool decode_delimited(M &r, chunk_reader &rd, size_t &used)
{
    try
    {
        used = spb::pb::deserialize(r, spb::io::reader(rd), {.delimited = true});
    }
    catch (...)
    {
        return false;
    }
    return true;
}
template <class M, class K, class R> static void framed_output(K mk, R put)
{
    M m{};
    mk(m);
    ref::delimited(1, 9, [&](int ch) { put(ch, m); });
    const size_t n = spb::pb::serialize_size(m, {.delimited = true});
    __ai_assert(n == __ai_log_size(1), "predicted size of a delimited message");
    __ai_assert(spb::pb::serialize(m, spb::io::writer(ref::log_writer{0}), {.delimited = true}) == n, "size returned by the writer");
    __ai_assert_logs(0, 1, "delimited bytes of the writer");
    auto *buf = new uint8_t[__ai_split(n)];
    __ai_assert(spb::pb::serialize(m, (void *)buf, {.delimited = true}) == n, "size returned by the buffer");
    __ai_log(2, buf, n);
    __ai_assert_logs(2, 1, "delimited bytes of the buffer");
    std::vector<std::byte> c(2);
    __ai_assert(spb::pb::serialize(m, c, {.delimited = true}) == n && c.size() == n, "size of the container");
    __ai_log(3, c.data(), c.size());
    __ai_assert_logs(3, 1, "delimited bytes of the container");
    __ai_cover("done");
}
// two messages behind each other and a byte that belongs to neither
template <class M, class K, class R, class E> static void framed_sequence(K mk, R put, E eq)
{
    M m1{}, m2{};
    mk(m1);
    ref::delimited(0, 9, [&](int ch) { put(ch, m1); });
    const size_t n1 = __ai_split(__ai_log_size(0));
    const bool two = __ai_pick("two", 2);
    if (two)
    {
        mk(m2);
        ref::delimited(0, 9, [&](int ch) { put(ch, m2); });
    }
    const size_t n2 = __ai_split(__ai_log_size(0));
    ref::byte(0, 0xff);
    uint8_t buf[128];
    const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    M r1{}, r2{};
    size_t used = 0;
    if (__ai_pick("reader", 2))
    {
        static const size_t limits[] = {1, 3, 1000};
        chunk_reader rd{buf, n, limits[__ai_pick("chunk", 3)], 99};
        __ai_assert(decode_delimited(r1, rd, used), "a delimited message is accepted from a reader");
        __ai_assert(used == n1 && rd.left == n - n1, "exactly one delimited message is read");
        eq(m1, r1);
        if (two)
        {
            __ai_assert(decode_delimited(r2, rd, used), "the next delimited message is accepted from a reader");
            __ai_assert(used == n2 - n1 && rd.left == n - n2, "exactly the next delimited message is read");
            eq(m2, r2);
        }
    }
    else
    {
        auto *p = exact(buf, n);
        __ai_assert(decode_delimited(r1, p, n, used), "a delimited message is accepted");
        __ai_assert(used == n1, "exactly one delimited message is consumed");
        eq(m1, r1);
        if (two)
        {
            __ai_assert(decode_delimited(r2, p + n1, n - n1, used), "the next delimited message is accepted");
            __ai_assert(used == n2 - n1, "exactly the next delimited message is consumed");
            eq(m2, r2);
        }
    }
    __ai_cover("done");
}
// cut input and wrong prefixes of a message of one record
template <class M, class K, class R> static void framed_wrong(K mk, R put)
{
    M m{}, r{};
    mk(m);
    put(9, m);
    uint8_t body[120], buf[128];
    const size_t n = __ai_split(__ai_log_get(9, body, sizeof body));
    __ai_cover("done");
    if (n == 0) return;
    bool ok;
    size_t used = 0;
    if (__ai_pick("cut", 2))
    {
        ref::varint(0, n);
        __ai_log(0, body, n);
        __ai_log_get(0, buf, sizeof buf);
        const size_t k = __ai_pick("at", n + 1);
        chunk_reader rd{buf, k, 1000, 99};
        ok = __ai_pick("reader", 2) ? decode_delimited(r, rd, used) : decode_delimited(r, exact(buf, k), k, used);
        __ai_assert(!ok, "a cut delimited message is rejected");
        return;
    }
    size_t k = 1 + __ai_pick("prefix", n + 2); // 1 .. n + 2
    if (k == n) return;
    if (k == n + 2) k = 100000;
    ref::varint(0, k);
    __ai_log(0, body, n);
    const size_t all = __ai_split(__ai_log_get(0, buf, sizeof buf));
    chunk_reader rd{buf, all, 1000, 99};
    ok = __ai_pick("reader", 2) ? decode_delimited(r, rd, used) : decode_delimited(r, exact(buf, all), all, used);
    __ai_assert(!ok, k > n ? "a prefix larger than the input is rejected" : "a prefix that ends inside a field is rejected");
}
