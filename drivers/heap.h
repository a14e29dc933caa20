// no heap allocation while the library runs
#pragma once
#include "json.h"
struct count_writer
{
    size_t *n;
    void operator()(const void *, size_t k) const { *n += k; }
};
// deliver: 0 buffer, 1 and 2 a reader
template <class M> static bool heap_decode(M &r, bool json, const uint8_t *p, size_t n)
{
    const int form = int(__ai_pick("form", 3));
    chunk_reader rd{p, n, form == 2 ? 1u : 1000u, 99};
    try
    {
        if (form == 0) json ? spb::json::deserialize(r, p, n) : spb::pb::deserialize(r, p, n);
        else json ? spb::json::deserialize(r, spb::io::reader(rd)) : spb::pb::deserialize(r, spb::io::reader(rd));
    }
    catch (...)
    {
        return false;
    }
    return true;
}
template <class M> static void heap_encode(const M &m, bool json)
{
    uint8_t out[256];
    size_t n = 0, k = 0;
    count_writer wr{&n};
    switch (__ai_pick("output", 3))
    {
    case 0: k = json ? spb::json::serialize_size(m) : spb::pb::serialize_size(m); n = k; break;
    case 1: k = json ? spb::json::serialize(m, spb::io::writer(wr)) : spb::pb::serialize(m, spb::io::writer(wr)); break;
    default:
        k = json ? spb::json::serialize_size(m) : spb::pb::serialize_size(m, {.delimited = true});
        __ai_assert(k <= sizeof out, "driver: output buffer");
        n = json ? spb::json::serialize(m, (void *)out) : spb::pb::serialize(m, (void *)out, {.delimited = true});
    }
    __ai_assert(n == k, "size");
}
template <class M, class K, class R> static void no_heap_pb(K mk, R put)
{
    M m{}, r{};
    mk(m);
    put(0, m);
    // fields the message does not know
    ref::tag(0, 12345, 0); ref::varint(0, 300);
    ref::tag(0, 12346, 1); ref::fixed(0, 0, 8);
    ref::tag(0, 12347, 2); ref::varint(0, 3); ref::fixed(0, 0, 3);
    ref::tag(0, 12348, 5); ref::fixed(0, 0, 4);
    ref::tag(0, 12349, 2); ref::varint(0, 300);
    for (int i = 0; i < 300; i++) ref::byte(0, uint8_t(i));
    uint8_t buf[512];
    const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    const size_t cut = __ai_pick("cut", 4) * 30; // sometimes truncated
    __ai_no_heap(true);
    if (__ai_pick("direction", 2)) heap_encode(m, false);
    else
    {
        const bool ok = heap_decode(r, false, buf, n - cut);
        if (!cut) __ai_assert(ok, "a valid message is accepted");
    }
    __ai_no_heap(false);
    __ai_cover("done");
}
template <class M> static void no_heap_json(std::string_view s)
{
    rj::put(0, s);
    uint8_t buf[512];
    const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    const size_t cut = __ai_pick("cut", 3);
    M r{};
    __ai_no_heap(true);
    const bool ok = heap_decode(r, true, buf, n - cut);
    if (!cut)
    {
        __ai_assert(ok, "valid JSON is accepted");
        heap_encode(r, true);
    }
    __ai_no_heap(false);
    __ai_cover("done");
}
