// exceptions of the user's callbacks and containers
#pragma once
#include "json.h"
struct user_error
{
    int code;
};
struct failing_writer
{
    size_t *calls, at;
    void operator()(const void *, size_t) const
    {
        __ai_assert(*calls <= at, "the writer is not called again after it threw");
        if ((*calls)++ == at) throw user_error{77};
    }
};
struct failing_reader
{
    chunk_reader in;
    size_t at, *calls;
    size_t operator()(void *d, size_t n)
    {
        __ai_assert(*calls <= at, "the reader is not called again after it threw");
        if ((*calls)++ == at) throw user_error{88};
        return in(d, n);
    }
};
// the outcome of an operation
enum Outcome { RETURNS, USER, OTHER };
template <class F> static Outcome outcome(int code, F f)
{
    try
    {
        f();
    }
    catch (const user_error &e)
    {
        __ai_assert(e.code == code, "the exception object is the user's");
        return USER;
    }
    catch (...)
    {
        return OTHER;
    }
    return RETURNS;
}
template <class M, class K> static void writer_fails(bool json, K mk)
{
    M m{};
    mk(m);
    const size_t at = __ai_pick("fails_at", 6);
    size_t calls = 0;
    failing_writer wr{&calls, at};
    const Outcome o = outcome(77, [&] {
        if (json) spb::json::serialize(m, spb::io::writer(wr));
        else spb::pb::serialize(m, spb::io::writer(wr));
    });
    __ai_assert(o == (calls > at ? USER : RETURNS), "an exception of the writer reaches the caller unchanged, and nothing else is thrown");
    __ai_cover(calls > at ? "thrown" : "not_thrown");
    __ai_cover("done");
}
// ch 0 holds a valid input
template <class M> static void reader_fails(bool json)
{
    uint8_t buf[128];
    const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    static const size_t limits[] = {1, 4, 1000};
    const size_t limit = limits[__ai_pick("chunk", 3)], at = __ai_pick("fails_at", 6);
    size_t calls = 0;
    failing_reader rd{{buf, n, limit, 99}, at, &calls};
    M r{};
    const Outcome o = outcome(88, [&] {
        if (json) spb::json::deserialize(r, spb::io::reader(rd));
        else spb::pb::deserialize(r, spb::io::reader(rd));
    });
    __ai_assert(o == (calls > at ? USER : RETURNS), "an exception of the reader reaches the caller unchanged, and nothing else is thrown");
    __ai_cover("done");
}
template <class M, class K, class R> static void pb_reader_fails(K mk, R put)
{
    M m{};
    mk(m);
    put(0, m);
    reader_fails<M>(false);
}
// too much for a user supplied container (it throws 42)
template <class M> static void container_fails(bool json, bool fails)
{
    uint8_t buf[128];
    const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    M r{};
    int got = 0;
    chunk_reader rd{buf, n, 1000, 99};
    const bool reader = __ai_pick("reader", 2);
    try
    {
        if (json) reader ? spb::json::deserialize(r, spb::io::reader(rd)) : spb::json::deserialize(r, buf, n);
        else reader ? spb::pb::deserialize(r, spb::io::reader(rd)) : spb::pb::deserialize(r, buf, n);
    }
    catch (int e)
    {
        got = e;
    }
    catch (...)
    {
        got = -1;
    }
    __ai_assert(got == (fails ? 42 : 0), "an exception of a user supplied container reaches the caller unchanged");
    __ai_cover("done");
}
