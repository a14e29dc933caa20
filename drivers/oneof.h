// sequences of oneof alternatives, presence of optional values
#pragma once
#include "json.h"
// messages behind each other; carry(e, prev): what is not set in e comes from prev; clash(a, b): a and b set the same
// message alternative (merged, not replaced)
template <class M, class K, class R, class E, class C, class X> static void oneof_sequence(size_t count, K mk, R put, E eq, C carry, X clash)
{
    M a{}, b{}, c{};
    M *ms[] = {&a, &b, &c};
    M expected{};
    for (size_t i = 0; i < count; i++)
    {
        mk(*ms[i]);
        put(0, *ms[i]);
        if (clash(expected, *ms[i])) __ai_assume(false);
        M next = *ms[i];
        carry(next, expected);
        expected = next;
    }
    uint8_t buf[96];
    const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    M r{};
    const bool ok = __ai_pick("reader", 2) ? decode_reader(r, buf, n, {buf, n, 1000, 99}) : decode(r, buf, n);
    __ai_assert(ok, "several alternatives of a oneof are accepted");
    if (ok)
    {
        eq(expected, r);
        put(1, expected);
        spb::pb::serialize(r, spb::io::writer(ref::log_writer{2}));
        __ai_assert_logs(1, 2, "exactly the alternative that is set is encoded");
    }
    __ai_cover("done");
}
struct json_alt
{
    const char *text; // "name":value
    size_t index;
};
template <class M, size_t N, class G> static void oneof_json(const json_alt (&alts)[N], G index, size_t message)
{
    const auto &a = alts[__ai_pick("first", N)], &b = alts[__ai_pick("second", N)];
    (void)message;
    rj::put(0, "{");
    rj::put(0, a.text);
    rj::put(0, ",");
    rj::put(0, b.text);
    rj::put(0, "}");
    uint8_t buf[128];
    const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
    M r{}, e{};
    const bool ok = __ai_pick("reader", 2) ? jdecode_reader(r, {buf, n, 1000, 99}) : jdecode(r, exact(buf, n), n);
    __ai_assert(ok, "several alternatives of a oneof are accepted from JSON");
    rj::put(3, "{");
    rj::put(3, b.text);
    rj::put(3, "}");
    __ai_assert(jdecode_log(e, 3), "one alternative is accepted from JSON");
    if (ok)
    {
        __ai_assert(index(r) == b.index && index(e) == b.index, "the last alternative in JSON wins");
        spb::json::serialize(r, spb::io::writer(ref::log_writer{4}));
        spb::json::serialize(e, spb::io::writer(ref::log_writer{5}));
        __ai_assert_logs(4, 5, "JSON of the last alternative only");
        __ai_assert_logs(4, 3, "JSON of the alternative");
    }
    __ai_cover("done");
}
// has(m), set(m): present with the default value; text: its JSON
template <class M, class H, class S, class R, class E> static void presence(const char *text, bool null_resets, H has, S set, R put, E eq)
{
    M m{}, r{};
    __ai_assert(!has(m), "a new message has no optional value");
    switch (__ai_pick("case", 5))
    {
    case 0: // absent in protobuf
    {
        __ai_assert(spb::pb::serialize_size(m) == 0, "an absent value has no size");
        spb::pb::serialize(m, spb::io::writer(ref::log_writer{0}));
        __ai_assert(__ai_log_size(0) == 0, "an absent value is not written");
        uint8_t none[1];
        __ai_assert(decode(r, none, 0), "an empty message is accepted");
        __ai_assert(!has(r), "an absent value stays absent");
        break;
    }
    case 1: // the default value in protobuf
    {
        set(m);
        put(0, m);
        __ai_assert(__ai_log_size(0) != 0, "driver: reference");
        spb::pb::serialize(m, spb::io::writer(ref::log_writer{1}));
        __ai_assert_logs(0, 1, "a present default value is written");
        uint8_t buf[32];
        const size_t n = __ai_split(__ai_log_get(0, buf, sizeof buf));
        const bool ok = __ai_pick("reader", 2) ? decode_reader(r, buf, n, {buf, n, 1000, 99}) : decode(r, buf, n);
        __ai_assert(ok, "a default value is accepted");
        if (ok)
        {
            __ai_assert(has(r), "a present default value stays present");
            eq(m, r);
        }
        break;
    }
    case 2: // absent in JSON
    {
        spb::json::serialize(m, spb::io::writer(ref::log_writer{0}));
        rj::put(1, "{}");
        __ai_assert_logs(0, 1, "an absent value is not written to JSON");
        __ai_assert(jdecode_log(r, 1), "an empty object is accepted");
        __ai_assert(!has(r), "an absent value stays absent in JSON");
        break;
    }
    case 3: // the default value in JSON
    {
        set(m);
        rj::put(0, text);
        spb::json::serialize(m, spb::io::writer(ref::log_writer{1}));
        __ai_assert_logs(0, 1, "a present default value is written to JSON");
        __ai_assert(jdecode_log(r, 0), "a default value is accepted from JSON");
        __ai_assert(has(r), "a present default value stays present in JSON");
        eq(m, r);
        break;
    }
    default: // null
        if (null_resets)
        {
            if (__ai_pick("was_set", 2)) set(r);
            const std::string_view t = text;
            rj::put(0, t.substr(0, t.find(':') + 1));
            rj::put(0, "null}");
            __ai_assert(jdecode_log(r, 0), "null is accepted");
            __ai_assert(!has(r), "null means absent");
        }
    }
    __ai_cover("done");
}
