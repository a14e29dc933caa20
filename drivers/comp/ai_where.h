// A mistake in a schema is reported as FILE:LINE:COLUMN of the file that contains it, inside the statement with the mistake.
#pragma once
// text of the file: lead, the statement, rest. The position is between lo and hi, offsets in the statement.
struct mistake
{
    const char *lead, *statement, *rest;
    size_t lo, hi;
};
static char buffer[400];
static size_t length;
static size_t offset_of_statement;
static void append(const char *t, size_t n)
{
    for (size_t i = 0; i < n; i++) buffer[length++] = t[i];
}
static void append(const char *t) { append(t, strlen(t)); }
static size_t number(const std::string &m, size_t &at)
{
    size_t n = 0, start = at;
    while (at < m.size() && m[at] >= '0' && m[at] <= '9' && at - start < 6) n = n * 10 + (size_t)(m[at++] - '0');
    __ai_assert(at != start, "the place of the mistake has a line and a column");
    return n;
}
// path: the file with the mistake; buffer: its text
static void where(const mistake &m, const char *path, std::initializer_list<const char *> args)
{
    std::string text;
    model::message = &text;
    int r = run(args);
    __ai_assert(r == 1, "the mistake is reported");
    if (r != 1) return;
    size_t at = text.rfind(path);
    __ai_assert(at != text.npos, "the file with the mistake is named");
    if (at == text.npos) return;
    at += strlen(path);
    __ai_assert(at < text.size() && text[at] == ':', "the file with the mistake is followed by the place");
    at++;
    size_t line = number(text, at);
    __ai_assert(at < text.size() && text[at] == ':', "the line is followed by the column");
    at++;
    size_t column = number(text, at);
    __ai_assert(at + 2 < text.size() && text[at] == ':', "the place is followed by a message");
    __ai_note("line", line);
    __ai_note("column", column);
    // every position of the statement that is allowed
    bool found = false;
    size_t l = 1, c = 1;
    for (size_t i = 0; i <= length; i++)
    {
        if (i >= offset_of_statement + m.lo && i <= offset_of_statement + m.hi) found |= l == line && c == column;
        if (i < length && buffer[i] == '\n') l++, c = 1;
        else c++;
    }
    __ai_assert(found, "the place is inside the statement with the mistake");
    __ai_cover("done");
}
