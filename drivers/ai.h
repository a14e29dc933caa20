#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t __ai_any(const char *name, int bits);
uint64_t __ai_opaque(const char *name, int bits);
void *__ai_buffer(const char *name, uint64_t n);
void *__ai_blob(const char *name, uint64_t size);
void __ai_assume(bool);
void __ai_assert(bool, const char *msg);
void __ai_fail(const char *msg);
void __ai_cover(const char *label);
void __ai_no_heap(bool on);
void __ai_note(const char *name, uint64_t v);
uint64_t __ai_split(uint64_t v);
uint64_t __ai_pick(const char *name, uint64_t n);
void __ai_log(int ch, const void *p, uint64_t n);
void __ai_log_byte(int ch, uint8_t b);
uint64_t __ai_log_size(int ch);
void __ai_log_clear(int ch);
void __ai_assert_logs(int a, int b, const char *msg);
[[noreturn]] void __ai_end();
}
extern "C" {
void __ai_log_append(int dst, int src);
uint64_t __ai_log_get(int ch, void *dst, uint64_t cap);
}
