// Model containers that satisfy the library's container concepts without any heap use.
#pragma once
#include <cstddef>
#include <cstring>
#include <new>
#include <initializer_list>
#include <iterator>
#include <optional>
#include <stdexcept>
#include <string_view>
#include <type_traits>
#include <utility>
namespace cont
{
[[noreturn]] inline void full() { throw 42; }
template <class C, size_t N> struct text
{
    using value_type = C;
    using reference = C &;
    using const_reference = const C &;
    using iterator = C *;
    using const_iterator = const C *;
    using size_type = size_t;
    using difference_type = ptrdiff_t;
    C buf[N];
    size_t n = 0;
    C *data() { return buf; }
    const C *data() const { return buf; }
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    C *begin() { return buf; }
    C *end() { return buf + n; }
    const C *begin() const { return buf; }
    const C *end() const { return buf + n; }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
    auto rbegin() { return std::reverse_iterator(end()); }
    auto rend() { return std::reverse_iterator(begin()); }
    auto rbegin() const { return std::reverse_iterator(end()); }
    auto rend() const { return std::reverse_iterator(begin()); }
    C &back() { return buf[n - 1]; }
    C &front() { return buf[0]; }
    const C &front() const { return buf[0]; }
    const C &back() const { return buf[n - 1]; }
    C &at(size_t i) { if (i >= n) full(); return buf[i]; }
    const C &at(size_t i) const { if (i >= n) full(); return buf[i]; }
    void pop_back() { n--; }
    static constexpr size_t max_size() { return N; }
    size_t capacity() const { return N; }
    void reserve(size_t k) { if (k > N) full(); }
    void shrink_to_fit() {}
    template <class It> C *insert(const C *at, It b, It e)
    {
        size_t i = size_t(at - buf), k = 0;
        for (It x = b; x != e; ++x) k++;
        if (n + k > N) full();
        for (size_t j = n; j > i; j--) buf[j - 1 + k] = buf[j - 1];
        n += k;
        for (C *d = buf + i; b != e; ++b) *d++ = *b;
        return buf + i;
    }
    C *erase(const C *b, const C *e)
    {
        size_t i = size_t(b - buf), k = size_t(e - b);
        for (size_t j = i; j + k < n; j++) buf[j] = buf[j + k];
        n -= k;
        return buf + i;
    }
    C *erase(const C *b) { return erase(b, b + 1); }
    template <class It> void assign(It b, It e) requires(!std::is_integral_v<It>)
    {
        n = 0;
        insert(buf, b, e);
    }
    void clear() { n = 0; }
    void resize(size_t k, C v)
    {
        if (k > N) full();
        for (size_t i = n; i < k; i++) buf[i] = v;
        n = k;
    }
    void resize(size_t k)
    {
        if (k > N) full();
        for (size_t i = n; i < k; i++) buf[i] = C{};
        n = k;
    }
    void push_back(C c)
    {
        if (n == N) full();
        buf[n++] = c;
    }
    C &operator[](size_t i) { return buf[i]; }
    const C &operator[](size_t i) const { return buf[i]; }
    bool operator==(const text &o) const { return n == o.n && memcmp(buf, o.buf, n) == 0; }
};
template <size_t N> struct str : text<char, N>
{
    void append(const char *p, size_t k)
    {
        if (this->n + k > N) full();
        memcpy(this->buf + this->n, p, k);
        this->n += k;
    }
    str() = default;
    str(std::string_view v) { append(v.data(), v.size()); }
    str &append(std::string_view v) { append(v.data(), v.size()); return *this; }
    str &append(size_t k, char c) { while (k--) this->push_back(c); return *this; }
    template <class It> str &append(It b, It e) requires(!std::is_integral_v<It> && !std::is_convertible_v<It, const char *>)
    {
        for (; b != e; ++b) this->push_back(*b);
        return *this;
    }
    str &append(const char *b, const char *e) { append(b, size_t(e - b)); return *this; }
    str &operator+=(char c) { this->push_back(c); return *this; }
    str &operator+=(std::string_view v) { return append(v); }
    str &operator=(std::string_view v) { return assign(v); }
    operator std::string_view() const { return std::string_view(this->buf, this->n); }
    size_t length() const { return this->n; }
    const char *c_str() const { return this->buf; }
    using text<char, N>::assign;
    void assign(const char *b, const char *e)
    {
        this->n = 0;
        append(b, size_t(e - b));
    }
    str &assign(std::string_view v)
    {
        this->n = 0;
        return append(v);
    }
    str &assign(const char *b, size_t k) { return assign(std::string_view(b, k)); }
    int compare(std::string_view v) const { return std::string_view(*this).compare(v); }
};
template <size_t N> using bytes = text<std::byte, N>;

template <class T, size_t N> struct vec
{
    using value_type = T;
    using reference = T &;
    using const_reference = const T &;
    using iterator = T *;
    using const_iterator = const T *;
    using size_type = size_t;
    using difference_type = ptrdiff_t;
    T buf[N];
    size_t n = 0;
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    T *begin() { return buf; }
    T *end() { return buf + n; }
    const T *begin() const { return buf; }
    const T *end() const { return buf + n; }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
    auto rbegin() { return std::reverse_iterator(end()); }
    auto rend() { return std::reverse_iterator(begin()); }
    auto rbegin() const { return std::reverse_iterator(end()); }
    auto rend() const { return std::reverse_iterator(begin()); }
    T *data() { return buf; }
    const T *data() const { return buf; }
    T &front() { return buf[0]; }
    const T &front() const { return buf[0]; }
    const T &back() const { return buf[n - 1]; }
    T &at(size_t i) { if (i >= n) full(); return buf[i]; }
    const T &at(size_t i) const { if (i >= n) full(); return buf[i]; }
    void pop_back() { n--; }
    static constexpr size_t max_size() { return N; }
    size_t capacity() const { return N; }
    void reserve(size_t k) { if (k > N) full(); }
    void shrink_to_fit() {}
    template <class It> T *insert(const T *at, It b, It e)
    {
        size_t i = size_t(at - buf), k = 0;
        for (It x = b; x != e; ++x) k++;
        if (n + k > N) full();
        for (size_t j = n; j > i; j--) buf[j - 1 + k] = buf[j - 1];
        n += k;
        for (T *d = buf + i; b != e; ++b) *d++ = *b;
        return buf + i;
    }
    T *erase(const T *b, const T *e)
    {
        size_t i = size_t(b - buf), k = size_t(e - b);
        for (size_t j = i; j + k < n; j++) buf[j] = buf[j + k];
        n -= k;
        return buf + i;
    }
    T *erase(const T *b) { return erase(b, b + 1); }
    template <class It> void assign(It b, It e) requires(!std::is_integral_v<It>)
    {
        n = 0;
        insert(buf, b, e);
    }
    void clear() { n = 0; }
    template <class... A> T &emplace_back(A &&...a)
    {
        if (n == N) full();
        buf[n] = T(std::forward<A>(a)...);
        return buf[n++];
    }
    void resize(size_t k)
    {
        if (k > N) full();
        for (size_t i = n; i < k; i++) buf[i] = T();
        n = k;
    }
    void push_back(const T &v) { emplace_back(v); }
    T &back() { return buf[n - 1]; }
    T &operator[](size_t i) { return buf[i]; }
    const T &operator[](size_t i) const { return buf[i]; }
};
template <class T> struct opt
{
    using value_type = T;
    T v{};
    bool has = false;
    opt() = default;
    opt(std::nullopt_t) {}
    opt(const T &x) : v(x), has(true) {}
    opt &operator=(std::nullopt_t) { has = false; return *this; }
    opt &operator=(const T &x)
    {
        v = x;
        has = true;
        return *this;
    }
    T &value() { if (!has) full(); return v; }
    const T &value() const { if (!has) full(); return v; }
    template <class U> T value_or(U &&u) const { return has ? v : T(std::forward<U>(u)); }
    bool has_value() const { return has; }
    explicit operator bool() const { return has; }
    void reset() { has = false; }
    T &operator*() { return v; }
    const T &operator*() const { return v; }
    T *operator->() { return &v; }
    const T *operator->() const { return &v; }
    template <class... A> T &emplace(A &&...a)
    {
        v = T(std::forward<A>(a)...);
        has = true;
        return v;
    }
};
template <class K, class V, size_t N> struct map
{
    using key_type = K;
    using mapped_type = V;
    using value_type = std::pair<K, V>;
    value_type buf[N];
    size_t n = 0;
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    value_type *begin() { return buf; }
    value_type *end() { return buf + n; }
    const value_type *begin() const { return buf; }
    const value_type *end() const { return buf + n; }
    auto cbegin() const { return begin(); }
    auto cend() const { return end(); }
    auto rbegin() { return std::reverse_iterator(end()); }
    auto rend() { return std::reverse_iterator(begin()); }
    auto rbegin() const { return std::reverse_iterator(end()); }
    auto rend() const { return std::reverse_iterator(begin()); }
    using reference = value_type &;
    using const_reference = const value_type &;
    using iterator = value_type *;
    using const_iterator = const value_type *;
    using size_type = size_t;
    using difference_type = ptrdiff_t;
    const value_type *find(const K &k) const { return const_cast<map *>(this)->find(k); }
    bool contains(const K &k) const { return find(k) != end(); }
    size_t count(const K &k) const { return contains(k); }
    V &at_key(const K &k) { return (*this)[k]; }
    std::pair<value_type *, bool> insert(const value_type &x)
    {
        auto *p = find(x.first);
        if (p != end()) return {p, false};
        auto &e = add();
        e = x;
        return {&e, true};
    }
    value_type *emplace_hint(const value_type *, const K &k, const V &x) { return insert(value_type(k, x)).first; }
    void clear() { n = 0; }
    value_type &add()
    {
        if (n == N) full();
        buf[n] = value_type();
        return buf[n++];
    }
    const value_type &at(size_t i) const { return buf[i]; }
    value_type *find(const K &k)
    {
        for (size_t i = 0; i < n; i++)
            if (buf[i].first == k) return buf + i;
        return end();
    }
    V &operator[](const K &k)
    {
        auto *p = find(k);
        if (p != end()) return p->second;
        auto &e = add();
        e.first = k;
        return e.second;
    }
    template <class... A> std::pair<value_type *, bool> try_emplace(const K &k, A &&...a)
    {
        auto *p = find(k);
        if (p != end()) return {p, false};
        auto &e = add();
        e.first = k;
        e.second = V(std::forward<A>(a)...);
        return {&e, true};
    }
    template <class X, class Y> std::pair<value_type *, bool> emplace(X &&k, Y &&v)
    {
        K key(std::forward<X>(k));
        auto *p = find(key);
        if (p != end()) return {p, false};
        auto &e = add();
        e.first = key;
        e.second = std::forward<Y>(v);
        return {&e, true};
    }
    template <class Y> std::pair<value_type *, bool> insert_or_assign(const K &k, Y &&v)
    {
        (*this)[k] = std::forward<Y>(v);
        return {find(k), true};
    }
};
// bytes of any size held elsewhere
struct view
{
    using value_type = std::byte;
    std::byte *p = nullptr;
    size_t n = 0;
    std::byte *data() { return p; }
    std::byte *data() const { return p; }
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    std::byte *begin() const { return p; }
    std::byte *end() const { return p + n; }
};
} // namespace cont
