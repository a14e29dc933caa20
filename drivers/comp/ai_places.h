// Where the output of every command is written and that it depends on the input file only: the result of each command is compared
// with the output of every one of its files written alone.
#pragma once
struct place
{
    const char *file; // absolute path of the input
    const char *rel;  // its directory in the output
};
static std::initializer_list<const char *> alone_options = {};
static model::output store[24];
static void forget()
{
    model::outputs = nullptr;
    model::opened = model::closed = 0;
    model::directory_count = 0;
    model::output_count = 0;
    model::lost = model::console_error = false;
}
static const char *stem_of(const char *f)
{
    const char *r = f;
    for (; *f; f++)
        if (*f == '/') r = f + 1;
    return r;
}
static std::string name_of(const char *out, const place &p, const char *ext)
{
    std::string s = out;
    if (*p.rel) s += "/", s += p.rel;
    std::string n = stem_of(p.file);
    n.resize(n.size() - 6);
    return s + "/" + n + ext;
}
// the command writes exactly the header and the source of these files below out
static void same(std::initializer_list<const char *> args, const char *out, std::initializer_list<place> want, std::initializer_list<const char *> before = {})
{
    model::quiet = false;
    model::keep = true;
    size_t n = 0;
    static std::string header[6], source[6];
    for (auto &p : want)
    {
        forget();
        model::outputs = store + 20;
        // the directory that makes it the relative one
        std::string dir = p.file;
        dir.resize(dir.size() - strlen(stem_of(p.file)) - 1);
        if (*p.rel) dir.resize(dir.size() - strlen(p.rel) - 1);
        model::hash_kind = 0;
        if (dir.empty()) dir = "/";
        int r = run({"sprotoc", "--cpp_out", "/alone", "-I", dir.c_str(), "-I", "/cwd/p", p.file});
        __ai_assert(r == 0, "every file alone is accepted");
        auto *h = model::find_output(name_of("/alone", p, ".pb.h").c_str()), *c = model::find_output(name_of("/alone", p, ".pb.cc").c_str());
        __ai_assert(h && c && model::output_count == 2, "the header and the source of a file are OUT/dir/name.pb.h and OUT/dir/name.pb.cc");
        if (!h || !c) return;
        header[n] = h->text;
        source[n] = c->text;
        __ai_assert(h->text.size() > 100 && c->text.size() > 100, "the output is not empty");
        n++;
    }
    forget();
    model::outputs = store;
    if (before.size())
    {
        int r = run(before);
        __ai_assert(r == 0, "the command before is accepted");
        model::opened = 0;
        model::directory_count = 0;
    }
    model::hash_kind = 1;
    int r = run(args);
    __ai_assert(r == 0, "the command is accepted");
    __ai_assert(!model::lost, "the directories are made before the files");
    __ai_assert(model::output_count == (int)(2 * n), "two files are written for every input");
    n = 0;
    for (auto &p : want)
    {
        auto *h = model::find_output(name_of(out, p, ".pb.h").c_str()), *c = model::find_output(name_of(out, p, ".pb.cc").c_str());
        __ai_assert(h != nullptr, "the header is OUT/dir/name.pb.h");
        __ai_assert(c != nullptr, "the source is OUT/dir/name.pb.cc");
        if (h) __ai_assert(h->text == header[n], "the header depends on its file only");
        if (c) __ai_assert(c->text == source[n], "the source depends on its file only");
        n++;
    }
    __ai_cover("done");
}
