// Stand-in for the clocks: whatever call the code reads the time of day or the monotonic time with,
// it sees sys::wall and sys::mono.
#pragma once
#include <sys/time.h>
#include <time.h>
#include <chrono>
namespace sys
{
extern struct timeval wall;
extern struct timespec nowMono;
inline int64_t wallTicks() { return (wall.tv_sec + 11644473600LL) * 10000000LL + (int64_t)wall.tv_usec * 10; }   // 100 ns since 1601
}
#ifdef CLOCK_IMPL
namespace sys
{
struct timeval wall = {1700000000, 123456};
struct timespec nowMono = {1000, 0};
}
extern "C" {
int __wrap_gettimeofday(struct timeval* tv, void*) { *tv = sys::wall; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec* t)
{
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { t->tv_sec = sys::wall.tv_sec; t->tv_nsec = sys::wall.tv_usec * 1000; }
    else *t = sys::nowMono;
    return 0;
}
int __wrap_timespec_get(struct timespec* t, int base) { t->tv_sec = sys::wall.tv_sec; t->tv_nsec = sys::wall.tv_usec * 1000; return base; }
time_t __wrap_time(time_t* t) { if (t) *t = sys::wall.tv_sec; return sys::wall.tv_sec; }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return (int64_t)sys::wall.tv_sec * 1000000000LL + (int64_t)sys::wall.tv_usec * 1000; }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return (int64_t)sys::nowMono.tv_sec * 1000000000LL + sys::nowMono.tv_nsec; }
}
#endif
