#include "sym.h"
#include <cerrno>
#include <pthread.h>
#include "MsgMemStorage.hpp"
#include "Queue.hpp"

using app::reactor::MsgMemStorage;
#ifndef THOROUGH
#define THOROUGH 0
#endif

namespace
{
struct Ref { unsigned len; uint8_t d[32]; };
// reference FIFO
struct Model
{
    Ref q[16]; unsigned n = 0, cap;
    explicit Model(unsigned c) : cap(c) {}
    bool push(Ref const& r) { if (n == cap) return false; q[n++] = r; return true; }
    bool pop(Ref& r) { if (!n) return false; r = q[0]; for (unsigned i = 1; i < n; ++i) q[i - 1] = q[i]; --n; return true; }
};
void cmpPop(MsgMemStorage& st, Model& m, unsigned room)
{
    uint8_t buf[40];
    memset(buf, 0xC5, sizeof buf);
    Ref r;
    bool const e = m.pop(r);
    bool const ok = st.pop(buf);
    CHECK(ok == e, "pop succeeds exactly when a message is queued");
    if (!e) { sym_reach("pop-empty"); return; }
    CHECK(memcmp(buf, r.d, r.len) == 0, "the oldest message is delivered with its bytes intact");
    for (unsigned i = r.len; i < sizeof buf; ++i) CHECK(buf[i] == 0xC5, "delivery writes no byte beyond the message");
    for (unsigned i = 0; i < r.len; ++i) sym_trace(buf[i]);
    sym_reach("popped");
}
}

// message sizes, including ones that do not fit
extern "C" void h_queue_sizes()
{
    unsigned const chunk = THOROUGH ? 12 : 8, ops = 4;
    MsgMemStorage st(chunk, 2);
    Model m(2);
    for (unsigned k = 0; k < ops; ++k)
    {
        if (chooseBool("isPush"))
        {
            Ref r;
            r.len = choose("len", chunk + 3);
            sym_make(r.d, r.len, "data");
            uint8_t src[32];
            memcpy(src, r.d, r.len);
            bool const ok = st.push(src, r.len);
            bool const e = r.len <= chunk && m.push(r);
            CHECK(ok == e, "push succeeds exactly when the message fits and a slot is free");
            sym_reach(e ? "pushed" : "refused");
        }
        else cmpPop(st, m, chunk);
    }
    while (m.n) cmpPop(st, m, chunk);
    cmpPop(st, m, chunk);
}
// order over long histories, wrapping several times
extern "C" void h_queue_order()
{
    unsigned const cap = 3, ops = THOROUGH ? 14 : 11;
    MsgMemStorage st(4, cap);
    Model m(cap);
    for (unsigned k = 0; k < ops; ++k)
    {
        if (chooseBool("isPush"))
        {
            Ref r; r.len = 4;
            sym_make(r.d, 4, "data");
            bool const ok = st.push(r.d, 4);
            CHECK(ok == m.push(r), "push succeeds exactly when a slot is free");
        }
        else cmpPop(st, m, 4);
    }
    while (m.n) cmpPop(st, m, 4);
}
// any enormous length is refused
extern "C" void h_queue_hugelen()
{
    MsgMemStorage st(16, 2);
    uint8_t b[16] = {1, 2, 3};
    uint64_t const len = sym<uint64_t>("len");
    ASSUME(len > 16);
    CHECK(!st.push(b, len), "a message bigger than a slot is refused");
    Model m(2);
    Ref r; r.len = 16; memset(r.d, 7, 16);
    CHECK(st.push(r.d, 16) == m.push(r), "a refused message does not occupy a slot");
    CHECK(st.push(r.d, 16) == m.push(r), "a refused message does not occupy a slot");
    cmpPop(st, m, 16); cmpPop(st, m, 16); cmpPop(st, m, 16);
    sym_reach("refused-huge");
}
// Queue<T>, the ring used by queues and pools
extern "C" void h_ring()
{
    unsigned const cap = 3, ops = THOROUGH ? 14 : 11;
    app::Queue<unsigned> q(cap);
    unsigned ref[16], n = 0;
    for (unsigned k = 0; k < ops; ++k)
    {
        CHECK(q.empty() == (n == 0), "empty reports whether anything is queued");
        if (n) CHECK(q.front() == ref[0], "front is the oldest element");
        bool const push = chooseBool("isPush");
        if (push && n < cap) { unsigned v = sym<unsigned>("v"); q.push(v); ref[n++] = v; sym_reach("push"); }
        else if (!push && n) { q.pop(); for (unsigned i = 1; i < n; ++i) ref[i - 1] = ref[i]; --n; sym_reach("pop"); }
    }
    while (n) { CHECK(!q.empty() && q.front() == ref[0], "front is the oldest element"); sym_trace(q.front()); q.pop(); for (unsigned i = 1; i < n; ++i) ref[i - 1] = ref[i]; --n; }
    CHECK(q.empty(), "empty reports whether anything is queued");
}

// ------------------------------------------------------------------ concurrency
// Cooperative threads; every load/store of the storage code and every mutex operation is a point where
// a symbolic choice may preempt the running thread (bounded number of preemptions).
namespace
{
MsgMemStorage* S;
unsigned const NT = 3;
bool finished[NT + 1];
int tids[NT + 1];
struct Lock { void* m; int owner; int count; } locks[8]; int nlocks = 0;   // owner: logical thread id, -1 = free
unsigned spins = 0;          // steps of the running thread since it was scheduled
int cur = 0;                 // logical id of the running thread; 0 = main
int budget = 0;
bool active = false;
uint8_t payload[NT + 1][4];
bool accepted[NT + 1];
uint8_t got[NT + 2][4]; int ngot = 0;
int popEmpty = 0;
bool waiting[NT + 1];
int waitFor[NT + 1];

void switchTo(int l) { cur = l; spins = 0; sym_switch_to(tids[l]); }
bool runnable(int l) { return l >= 1 && l <= (int)NT && !finished[l] && !waiting[l]; }
// a blocked or finished thread hands over to any runnable one
void handOver()
{
    int cand[NT], n = 0;
    for (int l = 1; l <= (int)NT; ++l) if (l != cur && runnable(l)) cand[n++] = l;
    if (!n) { switchTo(0); return; }
    int const k = n == 1 ? 0 : (int)choose("next", (unsigned)n);
    switchTo(cand[k]);
}
// a thread that waits actively (a spin lock) is preempted in the end
void spinPoint()
{
    if (!active || cur == 0 || ++spins < 100) return;
    CHECK(spins < 20000, "no thread is stuck");
    if (spins % 100) return;
    for (int l = 1; l <= (int)NT; ++l) if (l != cur && runnable(l)) { handOver(); return; }
}
void yieldPoint()
{
    spinPoint();
    if (!active || cur == 0 || budget <= 0) return;
    int cand[NT], n = 0;
    for (int l = 1; l <= (int)NT; ++l) if (l != cur && runnable(l)) cand[n++] = l;
    if (!n) return;
    unsigned const k = choose("preempt", (unsigned)n + 1);
    if (k == 0) return;
    --budget;
    switchTo(cand[k - 1]);
}
}
extern "C" {
void __sanitizer_cov_trace_pc() { spinPoint(); }
static Lock& lockOf(void* m)
{
    for (int i = 0; i < nlocks; ++i) if (locks[i].m == m) return locks[i];
    if (nlocks == 8) sym_end_path();
    locks[nlocks] = {m, -1, 0};
    return locks[nlocks++];
}
static int acquire(void* m, bool recursive)
{
    if (!active || cur == 0) return 0;
    yieldPoint();
    Lock& k = lockOf(m);
    if (recursive && k.owner == cur) { ++k.count; return 0; }
    while (k.owner != -1) { waiting[cur] = true; handOver(); }
    k.owner = cur; k.count = 1;
    return 0;
}
static int tryAcquire(void* m, bool recursive)
{
    if (!active || cur == 0) return 0;
    yieldPoint();
    Lock& k = lockOf(m);
    if (k.owner != -1 && !(recursive && k.owner == cur)) return EBUSY;
    ++k.count; k.owner = cur;
    return 0;
}
static int release(void* m)
{
    if (!active || cur == 0) return 0;
    Lock& k = lockOf(m);
    CHECK(k.owner == cur, "a thread unlocks only what it has locked");
    if (--k.count) return 0;
    k.owner = -1;
    for (int l = 1; l <= (int)NT; ++l) waiting[l] = false;
    yieldPoint();
    return 0;
}
static bool rec(pthread_mutex_t* m) { return m->__data.__kind == PTHREAD_MUTEX_RECURSIVE; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return acquire(m, rec(m)); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return tryAcquire(m, rec(m)); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return release(m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return acquire(m, false); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return acquire(m, false); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return tryAcquire(m, false); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return tryAcquire(m, false); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return release(m); }
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { return acquire((void*)m, false); }
int __wrap_pthread_spin_trylock(pthread_spinlock_t* m) { return tryAcquire((void*)m, false); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { return release((void*)m); }
int __wrap_sched_yield() { if (active && cur != 0) { spins += 100; spins -= spins % 100 + 1; spinPoint(); } return 0; }
void __sanitizer_cov_load1(uint8_t*) { yieldPoint(); }
void __sanitizer_cov_load2(uint16_t*) { yieldPoint(); }
void __sanitizer_cov_load4(uint32_t*) { yieldPoint(); }
void __sanitizer_cov_load8(uint64_t*) { yieldPoint(); }
void __sanitizer_cov_load16(__uint128_t*) { yieldPoint(); }
void __sanitizer_cov_store1(uint8_t*) { yieldPoint(); }
void __sanitizer_cov_store2(uint16_t*) { yieldPoint(); }
void __sanitizer_cov_store4(uint32_t*) { yieldPoint(); }
void __sanitizer_cov_store8(uint64_t*) { yieldPoint(); }
void __sanitizer_cov_store16(__uint128_t*) { yieldPoint(); }
}
namespace
{
void finish() { finished[cur] = true; handOver(); }
void producer(void* a)
{
    int const l = (int)(intptr_t)a & 0xff;
    accepted[l] = S->push(payload[l], 4);
    finish();
}
void consumer(void* a)
{
    int const pops = (int)(intptr_t)a >> 8;
    for (int i = 0; i < pops; ++i)
    {
        uint8_t b[8];
        if (S->pop(b)) { memcpy(got[ngot++], b, 4); } else ++popEmpty;
    }
    finish();
}
// roles: 0 producer, n consumer of n messages; the first fill messages are queued beforehand
void runThreads(unsigned cap, int const (&roles)[NT], unsigned fill, int preemptions)
{
    MsgMemStorage st(4, cap);
    S = &st;
    uint8_t pre[3][4];
    for (unsigned i = 0; i < fill; ++i) { sym_make(pre[i], 4, "queued"); CHECK(st.push(pre[i], 4), "an empty queue accepts messages"); }
    unsigned nprod = 0, ncons = 0;
    for (unsigned l = 1; l <= NT; ++l)
    {
        sym_make(payload[l], 4, "payload");
        int const r = roles[l - 1];
        if (r) ++ncons; else ++nprod;
        tids[l] = sym_thread_spawn(r ? consumer : producer, (void*)(intptr_t)(l | r << 8));
    }
    tids[0] = sym_self();
    budget = preemptions; active = true;
    handOver();
    active = false;
    unsigned nacc = fill;
    for (unsigned l = 1; l <= NT; ++l) if (!roles[l - 1] && accepted[l]) ++nacc;
    for (unsigned l = 1; l <= NT; ++l) CHECK(finished[l], "no thread is stuck");
    int const during = ngot;
    uint8_t b[8];
    while (ngot < (int)nacc && st.pop(b)) { memcpy(got[ngot++], b, 4); }
    CHECK(ngot == (int)nacc, "every accepted message is delivered");
    CHECK(!st.pop(b), "nothing is delivered twice or invented");
    if (!ncons) CHECK(nacc == (cap < nprod + fill ? cap : nprod + fill), "messages are refused only when the queue is full");
    else if (cap >= nprod + fill) CHECK(nacc == nprod + fill, "messages are refused only when the queue is full");
    // what was queued first is delivered first
    if (ncons <= 1) for (unsigned i = 0; i < fill; ++i) CHECK(!memcmp(got[i], pre[i], 4), "messages are delivered in order and intact");
    // the delivered multiset equals the accepted one
    for (unsigned l = 1; l <= NT + fill; ++l)
    {
        if (l <= NT && (roles[l - 1] || !accepted[l])) continue;
        uint8_t const* w = l <= NT ? payload[l] : pre[l - NT - 1];
        unsigned x = 0, y = 0;
        for (int i = 0; i < ngot; ++i) if (!memcmp(got[i], w, 4)) ++x;
        for (unsigned k = 1; k <= NT; ++k) if (!roles[k - 1] && accepted[k] && !memcmp(payload[k], w, 4)) ++y;
        for (unsigned k = 0; k < fill; ++k) if (!memcmp(pre[k], w, 4)) ++y;
        CHECK(x == y, "concurrently sent messages arrive intact, each exactly once");
    }
    for (int i = 0; i < ngot; ++i) sym_trace(got[i][0]);
    sym_reach("all-done");
}
}
extern "C" void h_queue_mt_push() { runThreads(2, {0, 0, 0}, choose("fill", 2), THOROUGH ? 3 : 2); }
extern "C" void h_queue_mt_pop() { runThreads(2, {0, 0, 2}, choose("fill", 3), THOROUGH ? 3 : 2); }
extern "C" void h_queue_mt_pops() { runThreads(choose("cap", 2) + 1, {0, 1, 1}, 1, THOROUGH ? 3 : 2); }
