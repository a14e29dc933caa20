// The world around the schema compiler: its input files, its output, which may fail at one place, and the parts of the C++ library that are not templates.
#pragma once
#include <ai.h>
#include <ai_model.h>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <rbtree.h>
#include <unordered_map>

auto sprotoc_main(int argc, char **argv) -> int;

namespace model
{
bool quiet = true;
struct input
{
    const char *path;
    const char *text;
    size_t size, pos;
    bool directory, failed;
};
static input inputs[8];
static int input_count = 0;
static void add(const char *path, const char *text, size_t size) { inputs[input_count++] = {path, text, size, 0, false, false}; }

// one operation may fail: reading a file, the first or a later write to a file, opening, closing it, making its directory
enum fault_kind { NO_FAULT, FAIL_DIR, FAIL_OPEN, FAIL_WRITE, FAIL_CLOSE, FAIL_READ };
static int fault = NO_FAULT, fault_file = 0, fault_write = 0;
static size_t fault_read = 0; // so many bytes of the file can be read
static bool lost = false;      // an operation failed
static int opened = 0, closed = 0, writes = 0;
static bool console_error = false; // something was written to cerr

// the path without '.', '..', '//' and a '/' at the end
static void resolve(const char *p, char *to)
{
    size_t n = 0;
    if (*p != '/')
        for (const char *c = "/cwd"; *c;) to[n++] = *c++;
    while (*p)
    {
        while (*p == '/') p++;
        size_t l = 0;
        while (p[l] && p[l] != '/') l++;
        if (l == 2 && p[0] == '.' && p[1] == '.')
        {
            while (n && to[--n] != '/') {}
        }
        else if (l && !(l == 1 && *p == '.'))
        {
            to[n++] = '/';
            for (size_t i = 0; i < l; i++) to[n++] = p[i];
        }
        p += l;
        __ai_assert(n < 120, "paths of the model are short");
    }
    if (!n) to[n++] = '/';
    to[n] = 0;
}
// what is written, when keep is set
struct output
{
    char path[128];
    std::string text;
};
static bool keep = false;
static int hash_kind = 0;
static output *outputs = nullptr;
static int output_count = 0;
static int output_of[64]; // of an opened file
static char directories[8][128];
static int directory_count = 0;
static output *find_output(const char *path)
{
    for (int i = 0; i < output_count; i++)
        if (strcmp(outputs[i].path, path) == 0) return &outputs[i];
    return nullptr;
}
static bool in_directory(const char *path, const char *dir)
{
    size_t n = strlen(dir);
    return strncmp(path, dir, n) == 0 && (path[n] == '/' || !path[n]);
}
int open_output(const char *path, bool append)
{
    writes = 0;
    if (keep)
    {
        char p[128];
        resolve(path, p);
        size_t e = strlen(p);
        while (e && p[--e] != '/') {}
        p[e] = 0;
        bool ok = false;
        for (int i = 0; i < directory_count; i++) ok |= in_directory(directories[i], p);
        if (!ok) return lost = true, -1; // there is no such directory
        p[e] = '/';
        auto *o = find_output(p);
        if (!o)
        {
            o = &outputs[output_count++];
            for (size_t i = 0; (o->path[i] = p[i]); i++) {}
        }
        else if (!append) o->text.clear();
        output_of[opened] = (int)(o - outputs);
    }
    if (fault == FAIL_OPEN && fault_file == opened)
    {
        opened++;
        lost = true;
        return -1;
    }
    return opened++;
}
bool write_output(int file, const char *s, size_t n)
{
    if (keep) outputs[output_of[file]].text.append(s, n);
    if (fault == FAIL_WRITE && fault_file == file && writes++ == fault_write)
    {
        lost = true;
        return false;
    }
    return true;
}
bool close_output(int file)
{
    closed++;
    if (fault == FAIL_CLOSE && fault_file == file)
    {
        lost = true;
        return false;
    }
    return true;
}
static input *find(const char *name)
{
    char path[128];
    resolve(name, path);
    for (int i = 0; i < input_count; i++)
        if (strcmp(inputs[i].path, path) == 0) return &inputs[i];
    return nullptr;
}
bool exists(const char *path) { return find(path) != nullptr; }
bool is_directory(const char *path)
{
    auto *f = find(path);
    return f && f->directory;
}
size_t size_of(const char *path)
{
    auto *f = find(path);
    return f && !f->directory ? f->size : (size_t)-1;
}
bool make_directories(const char *path)
{
    if (keep) resolve(path, directories[directory_count++]);
    if (fault != FAIL_DIR) return true;
    lost = true;
    return false;
}
static std::string *message = nullptr; // what is written to cerr, when set
struct console : std::streambuf
{
    bool error;
    explicit console(bool e) : error(e) {}
    int overflow(int c) override
    {
        console_error |= error;
        if (error && message) message->push_back((char)c);
        return c;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        console_error |= error;
        if (error && message) message->append(s, (size_t)n);
        return n;
    }
};
static console out_buf(false), err_buf(true);
} // namespace model
// the virtual functions of exceptions of the C++ library
static void exception_dtor(void *) {}
static const char *exception_what(void *) { return "error"; }
extern "C" __attribute__((used)) void *const __ai_exception_vtable[] = {(void *)exception_dtor, (void *)exception_dtor, (void *)exception_what};
namespace std
{
const char *exception::what() const noexcept { return "error"; }
#ifdef AI_MESSAGES
// exceptions with their texts
static const char *text_of(const char *s, size_t n)
{
    char *p = new char[n + 1];
    for (size_t i = 0; i < n; i++) p[i] = s[i];
    p[n] = 0;
    return p;
}
__cow_string::__cow_string(const string &s) : _M_p(text_of(s.data(), s.size())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(text_of(s, n)) {}
__cow_string::__cow_string(const __cow_string &s) noexcept : _M_p(s._M_p) {}
__cow_string::~__cow_string() {}
exception::~exception() noexcept {}
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &e) noexcept : exception(), _M_msg(e._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#else
const char *runtime_error::what() const noexcept { return "error"; }
#endif
const char *logic_error::what() const noexcept { return "error"; }
ostream cout(&model::out_buf, true), cerr(&model::err_buf, true), clog(&model::err_buf, true);
size_t _Hash_bytes(const void *p, size_t n, size_t seed)
{
    // any function will do, the order of unordered containers is not defined
    if (model::hash_kind == 0) return n;
    size_t h = 0;
    for (size_t i = 0; i < n; i++) h = h * 5 + static_cast<const unsigned char *>(p)[i];
    return ~h;
}
namespace __detail
{
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n < 13 ? 13 : n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (bkt == 1) return {true, 13};
    return {false, 0};
}
} // namespace __detail
} // namespace std
extern "C" int strcmp(const char *a, const char *b) throw()
{
    while (*a && *a == *b) a++, b++;
    return (unsigned char)*a - (unsigned char)*b;
}
extern "C" int strncmp(const char *a, const char *b, size_t n) throw()
{
    for (; n; n--, a++, b++)
        if (!*a || *a != *b) return (unsigned char)*a - (unsigned char)*b;
    return 0;
}
extern "C" int toupper(int c) throw() { return c >= 'a' && c <= 'z' ? c - 32 : c; }
extern "C" int tolower(int c) throw() { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern "C" FILE *fopen(const char *path, const char *)
{
    auto *f = model::find(path);
    if (f) f->pos = 0, f->failed = false;
    return reinterpret_cast<FILE *>(f);
}
extern "C" size_t fread(void *to, size_t size, size_t n, FILE *file)
{
    auto *f = reinterpret_cast<model::input *>(file);
    if (!size) return 0;
    size_t left = (f->size - f->pos) / size;
    if (n > left) n = left;
    if (model::fault == model::FAIL_READ && f == &model::inputs[model::fault_file] && f->pos + n * size > model::fault_read)
    {
        f->failed = model::lost = true;
        n = f->pos < model::fault_read ? (model::fault_read - f->pos) / size : 0;
    }
    memcpy(to, f->text + f->pos, n * size);
    f->pos += n * size;
    return n;
}
extern "C" int ferror(FILE *file) throw() { return reinterpret_cast<model::input *>(file)->failed; }
extern "C" int feof(FILE *file) throw()
{
    auto *f = reinterpret_cast<model::input *>(file);
    return !f->failed && f->pos == f->size;
}
extern "C" int fclose(FILE *) { return 0; }
extern "C" int *__errno_location() throw()
{
    static int number = 5;
    return &number;
}
extern "C" char *strerror(int) throw()
{
    static char text[] = "error";
    return text;
}
extern "C" void __ai_global_ctors();
static int run(std::initializer_list<const char *> args)
{
    __ai_global_ctors();
    char *argv[12];
    char texts[12][64];
    int argc = 0;
    for (auto *a : args)
    {
        for (int i = 0; (texts[argc][i] = a[i]); i++) {}
        argv[argc] = texts[argc];
        argc++;
    }
    argv[argc] = nullptr;
    return sprotoc_main(argc, argv);
}
