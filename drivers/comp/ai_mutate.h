// A schema with any change of one byte (replaced, inserted) or cut off at any position, or with two adjacent bytes replaced. Needs text and world().
#pragma once
static void go(const char *t, size_t len)
{
    // exactly the bytes of the file: a read behind them is an error
    char *p = (char *)__ai_buffer("schema", len ? len : 1);
    for (size_t i = 0; i < len; i++) p[i] = t[i];
    world(p, len);
    int r = run({"sprotoc", "--cpp_out=/o", "/i/m.proto"});
    __ai_assert(r == 0 || r == 1 && model::console_error, "accepted or rejected with a message");
    if (r == 0) __ai_assert(model::opened == 2 && model::closed == 2, "the output of an accepted schema is written");
    __ai_cover(r ? "rejected" : "accepted");
    __ai_cover("done");
}
static void one(size_t lo, size_t hi)
{
    const size_t n = sizeof(text) - 1;
    size_t p = lo + __ai_split(__ai_pick("position", hi - lo));
    size_t mode = __ai_split(__ai_pick("replaced, inserted, cut", 3));
    const char b = (char)__ai_any("byte", 8);
    char t[sizeof(text) + 1];
    size_t len = 0;
    for (size_t i = 0; i < p; i++) t[len++] = text[i];
    if (mode < 2)
    {
        t[len++] = b;
        for (size_t i = p + (mode == 0); i < n; i++) t[len++] = text[i];
    }
    go(t, len);
}
static void two(size_t lo, size_t hi)
{
    const size_t n = sizeof(text) - 1;
    size_t p = lo + __ai_split(__ai_pick("position", hi - lo));
    char t[sizeof(text)];
    for (size_t i = 0; i < n; i++) t[i] = text[i];
    t[p] = (char)__ai_any("first", 8);
    t[p + 1] = (char)__ai_any("second", 8);
    go(t, n);
}
