// Interface between the harnesses and the two back ends: the symbolic executor (engine/) and the
// native replayer (rt_native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>

extern "C" {
void sym_make(void* p, size_t n, char const* name);   // n fresh symbolic bytes
void sym_assume_(int c);
void sym_assert_(int c, char const* msg);
void sym_reach(char const* label);                    // vacuity witness
uint64_t sym_concretize(uint64_t v);                  // fork over every feasible value
int sym_native();
void sym_end_path();
void sym_check_read(void const* p, size_t n);
void sym_check_write(void* p, size_t n);
uint64_t sym_live_heap();
void sym_trace(uint64_t v);                           // compared between engine and native replay
void sym_print(char const* msg, uint64_t v);
int sym_thread_spawn(void (*fn)(void*), void* arg);
void sym_switch_to(int tid);
int sym_self();
}

#define ASSUME(c) sym_assume_((c) ? 1 : 0)
#define CHECK(c, msg) sym_assert_((c) ? 1 : 0, msg)

template <class T> inline T sym(char const* name)
{
    T v;
    sym_make(&v, sizeof(T), name);
    return v;
}
inline bool symBool(char const* name)
{
    uint8_t v = sym<uint8_t>(name);
    ASSUME(v < 2);
    return v != 0;
}
// a value in [0, n), forked so that it is concrete afterwards
inline unsigned choose(char const* name, unsigned n)
{
    uint8_t v = sym<uint8_t>(name);
    ASSUME(v < n);
    return (unsigned)sym_concretize(v);
}
inline bool chooseBool(char const* name) { return choose(name, 2) != 0; }
