// The process: threads of the reactors, start, stop and destruction in every timing.  The threads run as coroutines;
// they are switched where they block (epoll_wait, sleep, join) and, a bounded number of times, where they are preempted.
#define SYS_IMPL
#define SYS_THREADS
#include "sys.h"
#include <memory>
#include <stdexcept>
#include <iostream>
#include <chrono>
#include <thread>
#include <new>
#include "Reactor.hpp"
#include "Epoll.hpp"
#include "Event.hpp"
#include "Thread.hpp"
#include "MsgMemStorage.hpp"
#include "TimerInterface.hpp"
#include "LinkInterface.hpp"
#include "AcceptorInterface.hpp"
#include "MsgBase.hpp"
#include "ReactorManager.hpp"
#include "ComponentBase.hpp"
#include "Logger.hpp"
using namespace app::reactor;
#ifndef THOROUGH
#define THOROUGH 0
#endif

// ------------------------------------------------------------------ threads
namespace th
{
int const MAX = 7;
struct T { int tid = 0; bool created = false, finished = false, joined = false; void* (*fn)(void*) = nullptr; void* arg = nullptr; uint64_t cpus = ~0ull; bool pinned = false; } t[MAX];
int n = 1, cur = 0, budget = 0, rounds = 0, waits = 0;
enum { running, sleeping, joining } mainState = running;
int joinOf = 0;
int events = 0;               // how many more events may happen at the descriptors
bool can(int i)
{
    if (i == 0) return mainState == running || (mainState == sleeping && rounds <= 0) || (mainState == joining && t[joinOf].finished);
    return t[i].created && !t[i].finished;
}
void to(int i)
{
    if (i == cur) return;
    if (i != 0 && mainState == sleeping) --rounds;
    cur = i;
    sym_switch_to(t[i].tid);
}
int cands(int* c, bool self) { int k = 0; for (int d = 1; d <= MAX; ++d) { int const i = (cur + d) % MAX; if ((i != cur || self) && can(i)) c[k++] = i; } return k; }
// the running thread can not go on: the next in turn runs, or another one
void block()
{
    int c[MAX]; int const k = cands(c, true);
    if (!k) { if (mainState == sleeping) { rounds = 0; to(0); } else CHECK(false, "the process hangs"); return; }
    int w = 0;
    if (k > 1 && budget > 0) { w = (int)choose("next", (unsigned)k); if (w) --budget; }
    if (c[w] == cur) { if (cur != 0 && mainState == sleeping) --rounds; return; }
    to(c[w]);
}
void preempt()
{
    if (budget <= 0) return;
    int c[MAX]; int const k = cands(c, false);
    if (!k) return;
    unsigned const w = choose("preempt", (unsigned)k + 1);
    if (w == 0) return;
    --budget;
    to(c[w - 1]);
}
void body(void* a)
{
    int const i = (int)(intptr_t)a;
    t[i].fn(t[i].arg);
    t[i].finished = true;
    for (;;) block();
}
int cleanUp = 0;
void sleep_(bool mainThread, int r) { if (mainThread) { mainState = sleeping; rounds = r; } block(); if (mainThread) mainState = running; }
int (*mainRounds)() = nullptr;
int nSleep = 0;
int doSleep() { if (cur == 0) { int const r = mainRounds ? mainRounds() : 0; ++nSleep; sleep_(true, r); } else sleep_(false, 0); return 0; }
struct { pthread_attr_t const* a; uint64_t cpus; } attrs[8]; int nAttrs = 0;
uint64_t present = ~0ull;          // the processors the machine has
uint64_t bits(cpu_set_t const* s) { uint64_t m = 0; memcpy(&m, s, 8); return m; }
void pin(int i, uint64_t m) { t[i].cpus = m & present; t[i].pinned = true; }
}
extern "C" {
int __wrap_pthread_attr_setaffinity_np(pthread_attr_t* a, size_t, cpu_set_t const* s) { CHECK(th::nAttrs < 8, "as many threads as configured"); th::attrs[th::nAttrs].a = a; th::attrs[th::nAttrs++].cpus = th::bits(s); return 0; }
int __wrap_pthread_create(pthread_t* out, pthread_attr_t const* attr, void* (*fn)(void*), void* arg)
{
    for (int i = 0; i < th::nAttrs; ++i) if (attr && th::attrs[i].a == attr) { if (!(th::attrs[i].cpus & th::present)) return EINVAL; th::pin(th::n, th::attrs[i].cpus); }
    if (fail("pthread_create.fail")) return EAGAIN;
    using namespace th;
    CHECK(n < MAX, "more threads are started than configured");
    t[n].created = true; t[n].fn = fn; t[n].arg = arg;
    t[n].tid = sym_thread_spawn(body, (void*)(intptr_t)n);
    *out = (pthread_t)(0x7000 + n);
    ++n;
    preempt();
    return 0;
}
int __wrap_pthread_join(pthread_t h, void**)
{
    using namespace th;
    unsigned long const i = (unsigned long)h - 0x7000;
    CHECK(i >= 1 && i < (unsigned long)n && t[i].created && !t[i].joined, "a thread is waited for that was never started or has been waited for already");
    CHECK((int)i != cur, "a thread waits for itself");
    CHECK(cur == 0, "the threads are waited for by the main thread");
    mainState = joining; joinOf = (int)i; waits = 0;
    while (!t[i].finished) block();
    mainState = running;
    t[i].joined = true;
    return 0;
}
int __wrap_pthread_setaffinity_np(pthread_t h, size_t, cpu_set_t const* s)
{
    unsigned long const i = (unsigned long)h - 0x7000;
    CHECK(i >= 1 && i < (unsigned long)th::n, "processors are chosen for a thread that was never started");
    if (fail("setaffinity.fail") || !(th::bits(s) & th::present)) return EINVAL;
    th::pin((int)i, th::bits(s));
    return 0;
}
int __wrap_pthread_getaffinity_np(pthread_t h, size_t n, cpu_set_t* s)
{
    unsigned long const i = (unsigned long)h - 0x7000;
    CHECK(i >= 1 && i < (unsigned long)th::n, "processors are asked for of a thread that was never started");
    memset(s, 0, n); memcpy(s, &th::t[i].cpus, 8);
    return 0;
}
int __wrap_sched_setaffinity(pid_t, size_t, cpu_set_t const* s) { if (fail("setaffinity.fail") || !(th::bits(s) & th::present)) { errno = EINVAL; return -1; } th::pin(th::cur, th::bits(s)); return 0; }
int __wrap_sched_getaffinity(pid_t, size_t n, cpu_set_t* s) { memset(s, 0, n); memcpy(s, &th::t[th::cur].cpus, 8); return 0; }
int __wrap_nanosleep(struct timespec const*, struct timespec*) { return th::doSleep(); }
int __wrap_clock_nanosleep(clockid_t, int, struct timespec const*, struct timespec*) { return th::doSleep(); }
int __wrap_usleep(unsigned) { return th::doSleep(); }
}
namespace
{
bool expired[sys::MAXFD], edge[sys::MAXFD];
int handling[sys::MAXFD];          // by epoll instance: the thread (+1) that handles its events now
ssize_t rd(int fd, void* p, size_t n)
{
    if (sys::fds[fd].kind == sys::timer) { if (!expired[fd]) { errno = EAGAIN; return -1; } expired[fd] = false; uint64_t one = 1; memcpy(p, &one, 8); sys::fds[fd].armed = false; return 8; }
    if (sys::fds[fd].kind == sys::event) { if (!sys::fds[fd].count) { errno = EAGAIN; return -1; } memcpy(p, &sys::fds[fd].count, 8); sys::fds[fd].count = 0; return 8; }
    return 0;                                    // connections: closed by the peer
}
ssize_t wr(int fd, void const* p, size_t n)
{
    if (sys::fds[fd].kind == sys::event) { uint64_t u; memcpy(&u, p, 8); sys::fds[fd].count += u; edge[fd] = true; return 8; }
    return (ssize_t)n;
}
int waitEvents(struct epoll_event* ev, int)
{
    int const ep = sys::waitingOn;
    if (th::mainState == th::joining) CHECK(++th::waits < 20, "shutting down waits for ever for a thread that is not told to stop");
    if (handling[ep] == th::cur + 1) handling[ep] = 0;
    th::block();                                 // time passes
    int got[8], n = 0, k = 0;
    for (int i = sys::FIRST; i < sys::MAXFD; ++i)
    {
        sys::Fd const& f = sys::fds[i];
        if (!f.open || !f.inEpoll || f.ep != ep) continue;
        if (f.kind == sys::event && f.count && (edge[i] || !(f.events & EPOLLET))) { edge[i] = false; ev[k].events = EPOLLIN; ev[k].data.ptr = f.data; ++k; }
        else if (n < 8 && ((f.kind == sys::timer && f.armed) || f.kind == sys::conn || f.kind == sys::lsock)) got[n++] = i;
    }
    if (n && th::events > 0)
    {
        unsigned const w = choose("event", (unsigned)n + 1);
        if (w)
        {
            --th::events;
            int const i = got[w - 1];
            if (sys::fds[i].kind == sys::timer) expired[i] = true;
            ev[k].events = sys::fds[i].kind == sys::conn && (sys::fds[i].events & EPOLLOUT) ? EPOLLOUT : EPOLLIN; ev[k].data.ptr = sys::fds[i].data; ++k;
            sym_reach("event");
        }
    }
    if (k) { CHECK(!handling[ep], "two threads handle events of the same components at once"); handling[ep] = th::cur + 1; }
    if (k) th::preempt();                        // the events are known but not handled yet
    return k;
}
void init()
{
    for (int i = 0; i < static_cast<int>(app::LogTask::NUM); ++i) app::Logger::getInst().setTaskLogLevel(static_cast<app::LogTask>(i), app::LogLevel::NA);
    th::t[0].tid = sym_self(); th::t[0].created = true;
    sys::onEpollWait = waitEvents; sys::onRead = rd; sys::onWrite = wr;
}
void over()
{
    for (int i = 1; i < th::n; ++i) { CHECK(th::t[i].finished, "a thread still runs after the shut-down"); CHECK(th::t[i].joined, "a thread is left behind"); }
    CHECK(sys::nOpenAll() == 0, "a descriptor is left open after the shut-down");
    CHECK(!sys::badClose && !sys::badUse, "no call is made on a descriptor that is not open");
    sym_trace((uint64_t)th::n);
}
}

// ------------------------------------------------------------------ small components
namespace
{
LinkAddr const addr{LinkAddr::Type::ipv4, {127, 0, 0, 1, 2, 3}};
struct Raw : MsgInterface
{
    MsgId id; ComponentId comp;
    MsgId getMsgId() const override { return id; }
    ComponentId getCompId() const override { return comp; }
    std::size_t size() const override { return sizeof(Raw); }
};
int nAlive = 0, nHandled = 0;
struct Comp : ComponentInterface
{
    SenderInterface& sender; ReactorInterface& reactor; ComponentId id;
    TimerPtr timer; LinkPtr link; AcceptorPtr acc;
    bool busy = false; int count = 0;
    Comp(SenderInterface& s, ReactorInterface& r, ComponentId i) : sender(s), reactor(r), id(i)
    {
        ++nAlive;
        reactor.registerHandler(1, [this](MsgInterface const&) { on(1); });
    }
    ~Comp() override { CHECK(!busy, "a component is destroyed while it handles something"); --nAlive; }
    ComponentId getCompId() const override { return id; }
    SenderInterface& getSender() override { return sender; }
    ReactorInterface& getReactor() override { return reactor; }
    void on(int what)
    {
        CHECK(!busy, "a component handles two things at once");
        busy = true; ++count; ++nHandled;
        th::preempt();
        if (what == 1 && !timer)
        {
            timer = reactor.createTimer([this] { on(2); }); timer->start(1000);
            if (id == 5) { link = reactor.createLink([this](LinkEvent) { on(3); }); link->connect(addr); }
            else { acc = reactor.createAcceptor([this] { on(4); }); acc->listen(addr); }
        }
        else if (what == 2) { timer->start(1000); Raw m; m.id = 1; m.comp = id == 5 ? 6 : 5; sender.send(m); sym_reach("timer-handled"); }
        th::preempt();
        busy = false; ++count;
    }
};
}
extern "C" void h_proc_life()
{
    init();
    {
        bool const withStart = chooseBool("start");
        bool const withStop = chooseBool("stop");
        ReactorManager* m = new ReactorManager;
        for (int i = 0; i < 2; ++i)
        {
            std::unique_ptr<ReactorInterface> r{new Reactor(Reactor::Init{(unsigned)i, 1, 0})};
            m->addComponent(std::unique_ptr<ComponentInterface>(new Comp(*m, *r, 5 + i)));
            m->addReactor(std::move(r));
        }
        bool threw = false;
        sys::faults = withStop ? 0 : 1;
        if (withStart)
        {
            th::budget = THOROUGH ? 3 : 2; th::events = THOROUGH ? 2 : 1;
            try { m->start(); } catch (std::exception const&) { threw = true; }
            CHECK(threw == (sys::failed != 0), "starting fails exactly when the system refuses a thread");
            sys::faults = 0;
            Raw msg; msg.id = 1;
            msg.comp = 5; m->send(msg);
            msg.comp = 6; m->send(msg);
            th::mainRounds = [] { return th::nSleep == 0 ? (int)choose("rounds", 5) : 0; };
            th::doSleep();
        }
        if (withStop) { m->stop(); sym_reach("stopped"); }
        delete m;
        sym_reach(threw ? "start-failed" : withStart ? "started" : "never-started");
    }
    CHECK(nAlive == 0, "the components are destroyed");
    sym_trace((uint64_t)nHandled);
    over();
}

// threads run on the processors configured for them, and only there
extern "C" void h_proc_cpu()
{
    init();
    unsigned const i = choose("first", 65);
    unsigned const near[] = {64, (i + 1) % 64, 63, 0};
    unsigned const j = THOROUGH ? choose("second", 65) : near[choose("second", 4)];
    uint64_t const mask = (i < 64 ? 1ull << i : 0) | (j < 64 ? 1ull << j : 0);
    unsigned const some[] = {64, i, j, (i + 7) % 64};
    unsigned const gone = some[choose("missing", 4)];
    if (gone < 64) { th::present &= ~(1ull << gone); th::t[0].cpus = th::present; for (auto& t : th::t) t.cpus = th::present; }
    unsigned const threads = choose("threads", 2) + 1;
    bool threw = false;
    {
        std::unique_ptr<Reactor> r{new Reactor(Reactor::Init{0, threads, mask})};
        try { r->start(); } catch (std::exception const&) { threw = true; }
        if (mask & ~th::present) { CHECK(threw, "a start without the configured processors fails"); sym_reach("missing"); }
        else
        {
            CHECK(!threw, "a start with the configured processors succeeds");
            CHECK(th::n == (int)threads + 1, "as many threads as configured are started");
            th::mainRounds = [] { return 4; };
            th::doSleep();
            for (int t = 1; t < th::n; ++t) CHECK(th::t[t].cpus == (mask ? mask : th::present), "a thread runs on exactly the processors configured for it");
            sym_reach(mask ? "pinned" : "free");
        }
        r->stop();
    }
    sym_trace(threw);
    over();
}

extern "C" int rand() { static int n = 1000; return n += 7919; }
extern "C" void srand(unsigned) {}
// ------------------------------------------------------------------ the application as it is deployed
#define main app_main
#include "main.cpp"
#undef main
namespace
{
int maxListen = 0, nowListen[3], phase = 0;
int up = 0, down = 0;
int rounds_()
{
    if (th::nSleep == 0) return up;
    if (th::nSleep == 1) { nowListen[0] = sys::nOpen(sys::lsock); return down; }
    if (th::nSleep == 2) nowListen[1] = sys::nOpen(sys::lsock);
    return 0;
}
}
extern "C" void h_proc_main()
{
    init();
    static int const first[] = {0, 1, 2, 3, 5, 60}, second[] = {0, 1, 2, 40};
    up = first[choose("up", 6)];
    down = second[choose("down", 4)];
    th::mainRounds = rounds_;
    th::budget = THOROUGH ? 2 : 1; th::events = THOROUGH ? 2 : 1;
    CHECK(app_main(0, nullptr) == 0, "the process ends normally");
    sym_trace((uint64_t)nowListen[0] << 8 | (uint64_t)nowListen[1]);
    if (sys::nBind == 2 && nowListen[0] >= 1) sym_reach("listening");
    over();
    sym_reach("ended");
}
