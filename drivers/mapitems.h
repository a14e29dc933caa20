// map items in every shape
#pragma once
#include "json.h"
#include "fields.h"
// items: a and b hold one item each; message: the value is a message (repeated ones are merged)
template <class M, class K, class PK, class PV, class E> static void map_item(uint32_t number, size_t max_parts, bool message, K mk, PK putk, PV putv, E eq)
{
    M a{}, b{}, e{}, r{};
    mk(a);
    __ai_assume(a.v.size() == 1);
    mk(b);
    __ai_assume(b.v.size() == 1);
    const auto *key = static_cast<decltype(&a.v.at(0).first)>(nullptr);
    const auto *value = static_cast<decltype(&a.v.at(0).second)>(nullptr);
    const size_t parts = __ai_pick("parts", max_parts + 1);
    ref::tag(0, number, 2);
    ref::delimited(0, 9, [&](int ch) {
        for (size_t i = 0; i < parts; i++) switch (__ai_pick("part", 5))
        {
        case 0: putk(ch, a.v.at(0)); key = &a.v.at(0).first; break;
        case 1: putk(ch, b.v.at(0)); key = &b.v.at(0).first; break;
        case 2:
            if (message && value) __ai_end();
            putv(ch, a.v.at(0));
            value = &a.v.at(0).second;
            break;
        case 3:
            if (message && value) __ai_end();
            putv(ch, b.v.at(0));
            value = &b.v.at(0).second;
            break;
        default:
            switch (__ai_pick("unknown", 6))
            {
            case 0: ref::tag(ch, 3, 0); ref::varint(ch, 300); break;
            case 4: ref::tag(ch, 0x1fffffff, 0); ref::varint(ch, ~uint64_t(0)); break;
            case 5: ref::tag(ch, 15, 2); ref::varint(ch, 0); break;
            case 1: ref::tag(ch, 19, 1); ref::fixed(ch, 1, 8); break;
            case 2: ref::tag(ch, 4, 2); ref::varint(ch, 2); ref::fixed(ch, 1, 2); break;
            default: ref::tag(ch, 5000, 5); ref::fixed(ch, 1, 4); break;
            }
            break;
        }
    });
    auto &item = e.v.add();
    if (key) item.first = *key;
    if (value) item.second = *value;
    uint8_t buf[128];
    const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    const bool ok = __ai_pick("reader", 2) ? decode_reader(r, buf, n, {buf, n, 1000, 99}) : decode(r, buf, n);
    __ai_assert(ok, "a map item with parts in any order, missing, repeated or unknown is accepted");
    if (ok) eq(e, r);
    __ai_cover("done");
}
// two items with one key
template <class M, class K, class R, class PK, class PV, class E> static void map_same_key(uint32_t number, K mk, R put, PK putk, PV putv, E eq)
{
    M a{}, b{}, r{};
    mk(a);
    __ai_assume(a.v.size() == 1);
    mk(b);
    __ai_assume(b.v.size() == 1);
    b.v.begin()->first = a.v.begin()->first;
    put(0, a);
    ref::tag(0, number, 2);
    const bool without = __ai_pick("without_value", 2);
    ref::delimited(0, 9, [&](int ch) {
        putk(ch, b.v.at(0));
        if (!without) putv(ch, b.v.at(0));
    });
    if (without) b.v.begin()->second = {};
    uint8_t buf[128];
    const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    const bool ok = __ai_pick("reader", 2) ? decode_reader(r, buf, n, {buf, n, 1000, 99}) : decode(r, buf, n);
    __ai_assert(ok, "items with the same key are accepted");
    if (ok) eq(b, r);
    __ai_cover("done");
}
// a key or value of another wire type
template <class M, class E> static void map_wire_type(uint32_t number, unsigned good_key, unsigned good_value, E eq)
{
    const uint32_t part = 1 + uint32_t(__ai_pick("part", 2));
    const int wt = int(__ai_pick("wire_type", 8));
    if (((part == 1 ? good_key : good_value) >> wt) & 1) __ai_end();
    ref::tag(0, number, 2);
    ref::delimited(0, 9, [&](int ch) {
        ref::tag(ch, part, wt);
        payload(ch, wt, part);
    });
    uint8_t buf[64];
    const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    M e{}, r{};
    e.v.add() = {};
    const bool ok = __ai_pick("reader", 2) ? decode_reader(r, buf, n, {buf, n, 1000, 99}) : decode(r, buf, n);
    if (ok) eq(e, r);
    if (wt == 3 || wt == 4 || wt > 5) __ai_assert(!ok, "groups and undefined wire types are rejected");
    __ai_cover("done");
}
// JSON: the second value of a key
template <class M, class E> static void map_json_same_key(const char *key, const char *v1, const char *v2, E eq)
{
    rj::put(0, "{\"v\":{");
    for (const char *v : {v1, v2})
    {
        if (v == v2) rj::put(0, ",");
        rj::put(0, key);
        rj::put(0, ":");
        rj::put(0, v);
    }
    rj::put(0, "}}");
    rj::put(1, "{\"v\":{");
    rj::put(1, key);
    rj::put(1, ":");
    rj::put(1, v2);
    rj::put(1, "}}");
    M e{}, r{};
    uint8_t buf[128];
    const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    const bool ok = __ai_pick("reader", 2) ? jdecode_reader(r, {buf, n, 1000, 99}) : jdecode(r, exact(buf, n), n);
    __ai_assert(ok, "a repeated JSON key is accepted");
    __ai_assert(jdecode_log(e, 1), "a map item is accepted from JSON");
    if (ok)
    {
        __ai_assert(e.v.size() == 1 && r.v.size() == 1, "one item for one key");
        eq(e, r);
    }
    __ai_cover("done");
}
