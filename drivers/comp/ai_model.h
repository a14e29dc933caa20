// The outside of the schema compiler: files, directories and output that may fail.
#pragma once
#include <cstddef>
namespace model
{
extern bool quiet; // text that is written is not looked at
int open_output(const char *path, bool append);
bool write_output(int file, const char *s, size_t n);
bool close_output(int file);
bool exists(const char *path);
bool is_directory(const char *path);
size_t size_of(const char *path); // (size_t)-1: cannot be read
bool make_directories(const char *path);
} // namespace model
