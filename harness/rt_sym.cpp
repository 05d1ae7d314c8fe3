// Library functions the engine executes from bitcode: the parts of libstdc++ / libc that are only
// available as compiled code.  None of this replaces code of the repository.
#include "sym.h"
#include <map>
#include <bits/stl_list.h>
#include <list>
#include <unordered_map>
#include <condition_variable>
#include <system_error>
#include <ctime>
#include <cstdarg>
#include <cstdlib>
#include <cmath>
#include <cerrno>
#include <sys/time.h>
#include <pthread.h>
#include <sched.h>

namespace std
{
// an unbalanced search tree has the same observable behaviour as the red-black one
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
_Rb_tree_node_base const* _Rb_tree_increment(_Rb_tree_node_base const* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x && x->_M_color == _S_red) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base const* _Rb_tree_decrement(_Rb_tree_node_base const* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw()
{
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &header) { header._M_parent = x; header._M_right = x; }
        else if (p == header._M_left) header._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw()
{
    auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
        if (header._M_parent == o) header._M_parent = n;
        else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
        else o->_M_parent->_M_right = n;
        if (n) n->_M_parent = o->_M_parent;
    };
    if (header._M_left == z)
    {
        if (z->_M_right) { _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left; header._M_left = y; }
        else header._M_left = z->_M_parent;
    }
    if (header._M_right == z)
    {
        if (z->_M_left) { _Rb_tree_node_base* y = z->_M_left; while (y->_M_right) y = y->_M_right; header._M_right = y; }
        else header._M_right = z->_M_parent;
    }
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else
    {
        _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    return z;
}
namespace __detail
{
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if (this != last)
    {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
        _List_node_base* const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
    }
}
void _List_node_base::_M_reverse() noexcept
{
    _List_node_base* t = this;
    do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    bool const ex = x._M_next == &x, ey = y._M_next == &y;
    _List_node_base const cx = x, cy = y;
    if (ey) x._M_next = x._M_prev = &x; else { x = cy; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
    if (ex) y._M_next = y._M_prev = &y; else { y = cx; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
// bucket counts are a matter of performance only
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static size_t const primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557, 116731, 236897, 480881, 976369};
    for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
    _M_next_resize = n; return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins <= _M_next_resize) return {false, 0};
    size_t min = elt + ins; if (!_M_next_resize && min < 11) min = 11;
    if (min >= bkt) { size_t want = min + 1; if (want < bkt * 2) want = bkt * 2; return {true, _M_next_bkt(want)}; }
    _M_next_resize = bkt;
    return {false, 0};
}
}
size_t _Hash_bytes(void const* p, size_t n, size_t seed) { auto b = (unsigned char const*)p; size_t h = seed; for (size_t i = 0; i < n; ++i) h = h * 31 + b[i]; return h; }
__thread void* __once_callable;
__thread void (*__once_call)();
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() {}
void condition_variable::notify_one() noexcept {}
void condition_variable::notify_all() noexcept {}
}

extern "C" {
#define WEAK __attribute__((weak, noinline))
WEAK int pthread_mutex_lock(pthread_mutex_t*) throw() { return 0; }
WEAK int pthread_mutex_unlock(pthread_mutex_t*) throw() { return 0; }
WEAK int pthread_mutex_trylock(pthread_mutex_t*) throw() { return 0; }
WEAK char* __wrap_strrchr(char const* s, int c) throw()
{
    char const* r = nullptr;
    for (;; ++s) { if (*s == (char)c) r = s; if (!*s) break; }
    return const_cast<char*>(r);
}
WEAK char* __wrap_strchr(char const* s, int c) throw() { for (;; ++s) { if (*s == (char)c) return const_cast<char*>(s); if (!*s) return nullptr; } }
WEAK int __wrap_strcmp(char const* a, char const* b) throw() { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
WEAK int __wrap_strncmp(char const* a, char const* b, size_t n) throw() { for (; n; --n, ++a, ++b) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) break; } return 0; }
WEAK char* __wrap_strcpy(char* d, char const* s) throw() { char* r = d; while ((*d++ = *s++)) {} return r; }
// logging has no effect on the properties: the formatted line is dropped
WEAK void __wrap__ZN3app6Logger8dispatchEPKcNS_8LogLevelENS_7LogTaskES2_i(void*, char const*, int, int, char const*, int) {}
WEAK int pthread_rwlock_rdlock(pthread_rwlock_t*) throw() { return 0; }
WEAK int pthread_rwlock_wrlock(pthread_rwlock_t*) throw() { return 0; }
WEAK int pthread_rwlock_unlock(pthread_rwlock_t*) throw() { return 0; }
WEAK int pthread_rwlock_init(pthread_rwlock_t*, pthread_rwlockattr_t const*) throw() { return 0; }
WEAK int pthread_rwlock_destroy(pthread_rwlock_t*) throw() { return 0; }
WEAK int pthread_mutex_init(pthread_mutex_t*, pthread_mutexattr_t const*) throw() { return 0; }
WEAK int pthread_mutex_destroy(pthread_mutex_t*) throw() { return 0; }
WEAK int pthread_spin_init(pthread_spinlock_t*, int) throw() { return 0; }
WEAK int pthread_spin_destroy(pthread_spinlock_t*) throw() { return 0; }
WEAK int pthread_spin_lock(pthread_spinlock_t*) throw() { return 0; }
WEAK int pthread_spin_unlock(pthread_spinlock_t*) throw() { return 0; }
WEAK int sched_yield() throw() { return 0; }
WEAK int nanosleep(struct timespec const*, struct timespec*) { return 0; }
WEAK int usleep(unsigned) { return 0; }
WEAK time_t time(time_t* t) throw() { if (t) *t = 1700000000; return 1700000000; }
WEAK int clock_gettime(clockid_t, struct timespec* t) throw() { t->tv_sec = 1700000000; t->tv_nsec = 0; return 0; }
WEAK char* strerror(int) throw() { static char t[] = "error"; return t; }
WEAK char* strerror_r(int, char* b, size_t n) throw() { if (n) b[0] = 0; return b; }
WEAK char* getenv(char const*) throw() { return nullptr; }
WEAK void bzero(void* p, size_t n) throw() { memset(p, 0, n); }
WEAK void* __wrap_mempcpy(void* d, void const* s, size_t n) throw() { memcpy(d, s, n); return (char*)d + n; }
WEAK char* __wrap_strncpy(char* d, char const* s, size_t n) throw() { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
WEAK char* __wrap_strcat(char* d, char const* s) throw() { char* r = d; while (*d) ++d; while ((*d++ = *s++)) {} return r; }
WEAK size_t __wrap_strnlen(char const* s, size_t n) throw() { size_t i = 0; while (i < n && s[i]) ++i; return i; }
WEAK char* __wrap_strstr(char const* h, char const* n) throw()
{
    for (;; ++h) { size_t i = 0; while (n[i] && h[i] == n[i]) ++i; if (!n[i]) return const_cast<char*>(h); if (!*h) return nullptr; }
}
WEAK int isdigit(int c) throw() { return c >= '0' && c <= '9'; }
WEAK int isupper(int c) throw() { return c >= 'A' && c <= 'Z'; }
WEAK int islower(int c) throw() { return c >= 'a' && c <= 'z'; }
WEAK int isalpha(int c) throw() { return isupper(c) || islower(c); }
WEAK int isalnum(int c) throw() { return isalpha(c) || isdigit(c); }
WEAK int isspace(int c) throw() { return c == ' ' || (c >= 9 && c <= 13); }
WEAK int isprint(int c) throw() { return c >= 32 && c < 127; }
WEAK int isxdigit(int c) throw() { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
WEAK int __wrap_tolower(int c) throw() { return isupper(c) ? c + 32 : c; }
WEAK int __wrap_toupper(int c) throw() { return islower(c) ? c - 32 : c; }
WEAK int fputc(int c, FILE*) { return c; }
WEAK int putc(int c, FILE*) { return c; }
WEAK size_t fwrite(void const*, size_t, size_t n, FILE*) { return n; }
WEAK void qsort(void* base, size_t n, size_t w, int (*cmp)(void const*, void const*))
{
    auto b = (unsigned char*)base;
    for (size_t i = 1; i < n; ++i)
        for (size_t j = i; j > 0 && cmp(b + (j - 1) * w, b + j * w) > 0; --j)
            for (size_t k = 0; k < w; ++k) { unsigned char t = b[(j - 1) * w + k]; b[(j - 1) * w + k] = b[j * w + k]; b[j * w + k] = t; }
}
static unsigned long long parse(char const* s, char** end, int base, bool& neg)
{
    char const* p = s; neg = false;
    while (isspace(*p)) ++p;
    if (*p == '-' || *p == '+') neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; bool any = false;
    for (;; ++p)
    {
        int d = isdigit(*p) ? *p - '0' : islower(*p) ? *p - 'a' + 10 : isupper(*p) ? *p - 'A' + 10 : 99;
        if (d >= base) break;
        v = v * base + d; any = true;
    }
    if (end) *end = const_cast<char*>(any ? p : s);
    return v;
}
WEAK long strtol(char const* s, char** e, int b) throw() { bool n; unsigned long long v = parse(s, e, b, n); return n ? -(long)v : (long)v; }
WEAK unsigned long strtoul(char const* s, char** e, int b) throw() { bool n; unsigned long long v = parse(s, e, b, n); return n ? -v : v; }
WEAK long long strtoll(char const* s, char** e, int b) throw() { return strtol(s, e, b); }
WEAK unsigned long long strtoull(char const* s, char** e, int b) throw() { return strtoul(s, e, b); }
WEAK int __cxa_thread_atexit(void (*)(void*), void*, void*) throw() { return 0; }
WEAK int pthread_cond_init(pthread_cond_t*, pthread_condattr_t const*) throw() { return 0; }
WEAK int pthread_cond_destroy(pthread_cond_t*) throw() { return 0; }
WEAK int pthread_cond_signal(pthread_cond_t*) throw() { return 0; }
WEAK int pthread_cond_broadcast(pthread_cond_t*) throw() { return 0; }
WEAK int pthread_once(pthread_once_t* c, void (*f)()) { if (!*c) { *c = 2; f(); } return 0; }
WEAK void __once_proxy() { std::__once_call(); }
WEAK long lround(double d) throw() { return d < 0 ? -(long)(0.5 - d) : (long)(d + 0.5); }
WEAK wchar_t* wmemcpy(wchar_t* d, wchar_t const* s, size_t n) throw() { memcpy(d, s, n * sizeof(wchar_t)); return d; }
WEAK int64_t _ZNSt6chrono3_V212steady_clock3nowEv() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000L + t.tv_nsec; }
WEAK int64_t _ZNSt6chrono3_V212system_clock3nowEv() { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000000000L + t.tv_nsec; }
WEAK int __wrap_vsnprintf(char* b, size_t n, char const*, va_list) throw() { if (n) b[0] = 0; return 0; }
WEAK int gettimeofday(struct timeval* tv, void*) throw() { tv->tv_sec = 1700000000; tv->tv_usec = 0; return 0; }
WEAK struct tm* localtime(time_t const*) throw() { static struct tm t; return &t; }
WEAK size_t strftime(char* b, size_t, char const*, struct tm const*) throw() { b[0] = 0; return 0; }
static char const* excWhat(void*) { return "exception"; }
static void excDtor(void*) {}
__attribute__((used)) void* sym_exc_vtable[4] = {(void*)excDtor, (void*)excDtor, (void*)excWhat, (void*)excWhat};
}
