#define SYS_IMPL
#include "sys.h"
#include <memory>
#include <stdexcept>
#include "Reactor.hpp"
#include "Epoll.hpp"
#include "Event.hpp"
#include "Thread.hpp"
#include "MsgMemStorage.hpp"
#include "TimerInterface.hpp"
#include "LinkInterface.hpp"
#include "AcceptorInterface.hpp"
#include "MsgBase.hpp"
#include "ReactorManager.hpp"
#include "ComponentInterface.hpp"
#include "ComponentBase.hpp"

using namespace app::reactor;
#ifndef THOROUGH
#define THOROUGH 0
#endif

// what handlers throw: any kind of standard exception
static void boom()
{
    static int kind = -1;
    if (kind < 0) kind = (int)choose("exception", 3);
    if (kind == 0) throw std::runtime_error("handler");
    if (kind == 1) throw std::out_of_range("handler");
    throw std::bad_alloc();
}
namespace
{
Reactor::Init const init{0, 1, 0};
int evFd() { for (int i = sys::FIRST; i < sys::MAXFD; ++i) if (sys::fds[i].open && sys::fds[i].kind == sys::event) return i; return -1; }
LinkAddr const addr{LinkAddr::Type::ipv4, {127, 0, 0, 1, 2, 3}};

// The harness drives the reactor from inside epoll_wait: every call asks the script for the next
// batch of ready descriptors; when the script is over the reactor is stopped.
struct Ready { int fd; uint32_t ev; };
Ready ready[10]; int nReady = 0;
Reactor* R;
bool (*script)();          // fills ready[]; false: the scenario is over
void (*afterBatch)();
int waitEvents(struct epoll_event* ev, int maxev)
{
    nReady = 0;
    if (!script()) { R->stop(); return 0; }
    int n = 0;
    for (int i = 0; i < nReady && n < maxev; ++i)
    {
        if (ready[i].fd < 0) continue;
        sys::Fd& f = sys::fds[ready[i].fd];
        if (!f.open || !f.inEpoll) continue;
        ev[n].events = ready[i].ev; ev[n].data.ptr = f.data; ++n;
    }
    return n;
}
int findFd(sys::Kind k, int nth = 0) { for (int i = sys::FIRST; i < sys::MAXFD; ++i) if (sys::fds[i].open && sys::fds[i].kind == k && nth-- == 0) return i; return -1; }
void runLoop(Reactor& r, bool (*sc)()) { R = &r; script = sc; sys::onEpollWait = waitEvents; r.run(); }
}

// ------------------------------------------------------------------ timers
extern "C" void h_timer_start()
{
    Reactor r(init);
    int fired = 0;
    TimerPtr t = r.createTimer([&fired] { ++fired; });
    uint64_t const sec = sym<uint32_t>("sec");
    uint32_t const nsec = sym<uint32_t>("nsec");
    uint32_t const usec = sym<uint32_t>("interval");
    ASSUME(sec >= 1);
    ASSUME(nsec < 1000000000u);
    sys::nowMono.tv_sec = (time_t)sec; sys::nowMono.tv_nsec = (long)nsec;
    t->start((long)usec);
    CHECK(sys::nSettime == 1, "the timer is armed once");
    long const os = sys::lastIts.it_value.tv_sec, on = sys::lastIts.it_value.tv_nsec;
    CHECK(on >= 0 && on < 1000000000L, "the expiry time is normalised");
    bool const abstime = (sys::lastItsFlags & TFD_TIMER_ABSTIME) != 0;
    long const ds = abstime ? os - (long)sec : os;
    long const base = abstime ? (long)nsec : 0;
    CHECK(ds >= 0 && ds <= 4296, "the expiry time lies within the interval");
    CHECK(ds * 1000000000L + on == base + (long)usec * 1000L, "a timer started with an interval expires exactly that many microseconds from now");
    CHECK(sys::lastIts.it_interval.tv_sec == 0 && sys::lastIts.it_interval.tv_nsec == 0, "a timer expires once per start");
    sym_reach("armed");
}
// arming, stopping, re-arming, expiry and spurious wake-ups in any order
namespace tl
{
int fired, expect, k, tfd; bool armed, expired; TimerPtr* t;
void verdict()
{
    CHECK(fired == expect, "the handler runs exactly once per expiry of an armed timer and never for a stopped one");
    CHECK(sys::fds[tfd].armed == armed, "a timer is armed exactly while started and not expired");
    sym_trace((uint64_t)fired);
}
bool step()
{
    if (k) verdict();
    if (k++ == (THOROUGH ? 7 : 5)) return false;
    switch (choose("op", 4))
    {
    case 0: (*t)->start(1000); armed = true; expired = false; break;
    case 1: (*t)->stop(); armed = false; expired = false; break;
    case 2: if (armed) { expired = true; ++expect; armed = false; sym_reach("expired"); } ready[nReady++] = {tfd, EPOLLIN}; break;
    case 3: ready[nReady++] = {tfd, EPOLLIN}; break;     // spurious wake-up
    }
    return true;
}
ssize_t rd(int fd, void* p, size_t n)
{
    if (fd != tfd || !expired || n < 8) { errno = EAGAIN; return -1; }
    uint64_t one = 1; memcpy(p, &one, 8); sys::fds[fd].armed = false; expired = false; return 8;
}
}
extern "C" void h_timer_life()
{
    Reactor r(init);
    TimerPtr t = r.createTimer([] { ++tl::fired; });
    tl::t = &t;
    tl::tfd = findFd(sys::timer);
    CHECK(tl::tfd >= 0 && sys::fds[tl::tfd].inEpoll && (sys::fds[tl::tfd].events & EPOLLIN), "a created timer is watched");
    sys::onRead = tl::rd;
    runLoop(r, tl::step);
    t.reset();
    CHECK(findFd(sys::timer) == -1, "a released timer gives its descriptor back");
    CHECK(!sys::badClose && !sys::badUse, "no call is made on a descriptor that is not open");
    sym_reach("released");
}

// ------------------------------------------------------------------ descriptors and pools
namespace fdl
{
unsigned const NL = 2;
struct L { LinkPtr p; bool conn = false; int errors = 0; };
}
extern "C" void h_fd_links()
{
    sys::faults = 0;
    {
        Reactor r(init);
        int const base = sys::nOpenAll();
        sys::faults = THOROUGH ? 2 : 1;
        LinkPtr l = r.createLink([](LinkEvent) {});
        bool connected = false;
        for (int k = 0; k < (THOROUGH ? 6 : 5); ++k)
        {
            unsigned const op = choose("op", 3);
            if (op == 0)
            {
                bool threw = false;
                int const f0 = sys::failed;
                try { l->connect(addr); } catch (std::exception const&) { threw = true; }
                if (connected) CHECK(threw, "connecting a connected link is refused");
                else { CHECK(threw == (sys::failed != f0), "connecting fails exactly when the system refuses"); connected = !threw; }
                sym_reach(threw ? "connect-failed" : "connect-ok");
            }
            else if (op == 1) { l->close(); connected = false; }
            else
            {
                char b[4] = {};
                int const rc = l->send(b, 4);
                CHECK((rc == 1) == connected, "sending succeeds exactly on a connected link");
            }
            CHECK(sys::nOpenAll() == base + (connected ? 1 : 0), "a link holds a descriptor exactly while it is connected");
            CHECK(sys::nRegistered() == 1 + (connected ? 1 : 0), "a link is watched exactly while it is connected");
            sym_trace(connected);
        }
        l.reset();
        CHECK(sys::nOpenAll() == base, "a released link gives its descriptor back");
        CHECK(!sys::badClose && !sys::badUse, "no call is made on a descriptor that is not open");
    }
    CHECK(sys::nOpenAll() == 0, "a destroyed reactor leaves no descriptor open");
    CHECK(!sys::badClose && !sys::badUse, "no call is made on a descriptor that is not open");
}
extern "C" void h_fd_acceptor()
{
    {
        Reactor r(init);
        int const base = sys::nOpenAll();
        sys::faults = THOROUGH ? 2 : 1;
        {
            AcceptorPtr a = r.createAcceptor([] {});
            LinkPtr l[2] = {r.createLink([](LinkEvent) {}), r.createLink([](LinkEvent) {})};
            bool listening = false, conn[2] = {false, false};
            for (int k = 0; k < (THOROUGH ? 6 : 5); ++k)
            {
                unsigned const op = choose("op", 5);
                int const f0 = sys::failed;
                bool threw = false;
                if (op == 0 && !listening)
                {
                    try { a->listen(addr); } catch (std::exception const&) { threw = true; }
                    CHECK(threw == (sys::failed != f0), "listening fails exactly when the system refuses");
                    listening = !threw;
                    sym_reach(threw ? "listen-failed" : "listen-ok");
                }
                else if ((op == 1 || op == 2) && listening && !conn[op - 1])
                {
                    try { a->accept(*l[op - 1]); } catch (std::exception const&) { threw = true; }
                    CHECK(threw == (sys::failed != f0), "accepting fails exactly when the system refuses");
                    conn[op - 1] = !threw;
                    sym_reach(threw ? "accept-failed" : "accept-ok");
                }
                else if (op == 3 && conn[0]) { l[0]->close(); conn[0] = false; }
                else if (op == 4 && listening) { a->close(); listening = false; }
                int const n = (listening ? 1 : 0) + conn[0] + conn[1];
                CHECK(sys::nOpenAll() == base + n, "descriptors are held exactly by listening acceptors and connected links");
                CHECK(sys::nRegistered() == 1 + n, "every open connection and listening socket is watched");
                for (int i = 0; i < 2; ++i) { char b[1] = {}; CHECK((l[i]->send(b, 1) == 1) == conn[i], "a link is usable exactly while it holds a connection"); }
                for (int i = sys::FIRST; i < sys::MAXFD; ++i) if (sys::fds[i].open && sys::fds[i].kind == sys::conn) CHECK(sys::fds[i].nonblock, "connections do not block the event loop");
                sym_trace((uint64_t)n);
            }
        }
        CHECK(sys::nOpenAll() == base, "released acceptors and links give their descriptors back");
        CHECK(!sys::badClose && !sys::badUse, "no call is made on a descriptor that is not open");
    }
    CHECK(sys::nOpenAll() == 0, "a destroyed reactor leaves no descriptor open");
}
extern "C" void h_fd_timer()
{
    {
        Reactor r(init);
        int const base = sys::nOpenAll();
        sys::faults = THOROUGH ? 3 : 2;
        TimerPtr t[3]; bool have[3] = {false, false, false};
        for (int k = 0; k < (THOROUGH ? 5 : 4); ++k)
        {
            unsigned const i = choose("which", 3);
            int const f0 = sys::failed;
            if (!have[i])
            {
                bool threw = false;
                try { t[i] = r.createTimer([] {}); } catch (std::exception const&) { threw = true; }
                CHECK(threw == (sys::failed != f0), "creating a timer fails exactly when the system refuses");
                have[i] = !threw;
                sym_reach(threw ? "create-failed" : "create-ok");
            }
            else { t[i].reset(); have[i] = false; sym_reach("timer-released"); }
            int const n = have[0] + have[1] + have[2];
            CHECK(sys::nOpenAll() == base + n, "a timer holds a descriptor exactly while it exists");
            CHECK(sys::nRegistered() == 1 + n, "a timer is watched exactly while it exists");
        }
        for (auto& x : t) x.reset();
        CHECK(sys::nOpenAll() == base, "released timers give their descriptors back");
        CHECK(!sys::badClose && !sys::badUse, "no call is made on a descriptor that is not open");
    }
    CHECK(sys::nOpenAll() == 0, "a destroyed reactor leaves no descriptor open");
}

// ------------------------------------------------------------------ dispatch
namespace
{
struct Raw : MsgInterface
{
    MsgId id; ComponentId comp; uint32_t payload; uint8_t act; uint8_t tail[3];
    MsgId getMsgId() const override { return id; }
    ComponentId getCompId() const override { return comp; }
    std::size_t size() const override { return sizeof(Raw); }
};
enum { actNone = 0, actThrow = 1, actResend = 2 };
}
namespace dp
{
unsigned const QCAP = 64;
struct Rec { MsgId id; uint32_t payload; uint8_t act; };
Rec acc[80]; int nAcc, nDel, queued;      // accepted messages, delivered so far, not yet consumed
int evfd; bool edge; Reactor* r; int k, steps, kinds;
bool knownId(MsgId id) { return id == 1 || id == 2; }
void send(MsgId id, uint32_t payload, uint8_t act)
{
    Raw m; m.id = id; m.comp = 0; m.payload = payload; m.act = act;
    uint64_t const c0 = sys::fds[evfd].count;
    r->send(m);
    bool const accepted = sys::fds[evfd].count == c0 + 1;
    CHECK(accepted == (queued < (int)QCAP), "a message is refused exactly when the queue of the reactor is full");
    if (accepted) { acc[nAcc++] = {id, payload, act}; ++queued; }
    else sym_reach("refused");
}
void skipUnknown() { while (nDel < nAcc && !knownId(acc[nDel].id)) { ++nDel; --queued; } }
void on(MsgId as, MsgInterface const& mi)
{
    skipUnknown();
    CHECK(nDel < nAcc, "nothing is delivered that was not sent");
    Raw const& m = static_cast<Raw const&>(mi);
    CHECK(m.getMsgId() == as && as == acc[nDel].id, "a message reaches the handler registered for it, in the order of sending");
    CHECK(m.payload == acc[nDel].payload && m.act == acc[nDel].act, "a message arrives with its content intact");
    CHECK(((uintptr_t)&m & 7) == 0, "a delivered message is aligned");
    uint8_t const act = acc[nDel].act;
    ++nDel; --queued;
    sym_trace(as);
    if (act == actThrow) { sym_reach("threw"); boom(); }
    if (act == actResend) { sym_reach("resent"); send(1, 77, actNone); }
}
ssize_t wr(int fd, void const* p, size_t)
{
    uint64_t u; memcpy(&u, p, 8);
    sys::fds[fd].count += u; edge = true;
    return 8;
}
bool step()
{
    if (k)
    {
        skipUnknown();
        if (!edge) CHECK(nDel == nAcc, "every accepted message is delivered, whatever other handlers do");
    }
    if (k++ >= steps) { if (edge) { edge = false; ready[nReady++] = {evfd, EPOLLIN}; return true; } return false; }
    unsigned const n = choose("nsend", 3);
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned const kind = choose("kind", (unsigned)kinds);       // handled x3, unhandled
        MsgId const id = kind == 3 ? 9 : kind == 0 ? 1 : 2;
        send(id, sym<uint32_t>("payload"), kind == 1 ? actThrow : kind == 2 ? actResend : actNone);
    }
    if (edge && chooseBool("wake")) { edge = false; ready[nReady++] = {evfd, EPOLLIN}; }
    return true;
}
void drain(Reactor& r_)
{
    CHECK(nDel == nAcc && queued == 0, "every accepted message is delivered exactly once");
}
}
extern "C" void h_dispatch()
{
    Reactor r(init);
    dp::r = &r; dp::evfd = evFd(); dp::steps = THOROUGH ? 4 : 3; dp::kinds = 4;
    sys::onWrite = dp::wr;
    r.registerHandler(1, [](MsgInterface const& m) { dp::on(1, m); });
    r.registerHandlers({{2, [](MsgInterface const& m) { dp::on(2, m); }}});
    CHECK(sys::fds[dp::evfd].inEpoll, "the reactor is woken by messages");
    runLoop(r, dp::step);
    dp::skipUnknown();
    dp::drain(r);
    sym_reach("drained");
}
// a full queue refuses, keeps what it accepted and works again afterwards
namespace df
{
int k; unsigned burst;
bool step()
{
    using namespace dp;
    if (k) { skipUnknown(); CHECK(edge || nDel == nAcc, "every accepted message is delivered, whatever other handlers do"); }
    if (k == 2) return false;
    if (!edge)
    {
        unsigned const n = k == 0 ? 61 + choose("burst", 6) : 2;
        if (k == 1) sym_reach("second-burst");
        for (unsigned i = 0; i < n; ++i) send(1 + (i & 1), i < 2 || i > 60 ? sym<uint32_t>("payload") : i, i == 3 ? actThrow : actNone);
        ++k;
    }
    if (edge) { edge = false; ready[nReady++] = {evfd, EPOLLIN}; }
    return true;
}
}
extern "C" void h_dispatch_full()
{
    Reactor r(init);
    dp::r = &r; dp::evfd = evFd();
    sys::onWrite = dp::wr;
    r.registerHandler(1, [](MsgInterface const& m) { dp::on(1, m); });
    r.registerHandler(2, [](MsgInterface const& m) { dp::on(2, m); });
    runLoop(r, df::step);
    dp::drain(r);
    sym_reach("drained");
}
// routing between components and their reactors
namespace rt
{
struct Got { int reactor; MsgId id; ComponentId comp; uint32_t p; };
Got got[8]; int n;
struct Comp : ComponentInterface
{
    ReactorInterface& r; SenderInterface& s; ComponentId c;
    Comp(ReactorInterface& r_, SenderInterface& s_, ComponentId c_) : r(r_), s(s_), c(c_) {}
    ComponentId getCompId() const override { return c; }
    SenderInterface& getSender() override { return s; }
    ReactorInterface& getReactor() override { return r; }
};
struct FakeReactor : ReactorInterface
{
    int no; explicit FakeReactor(int n_) : no(n_) {}
    void registerHandler(MsgId, MsgHandler) override {}
    void registerHandlers(MsgHandlerVector const&) override {}
    TimerPtr createTimer(TimerHandler) override { return {}; }
    LinkPtr createLink(LinkHandler) override { return {}; }
    AcceptorPtr createAcceptor(AcceptorHandler) override { return {}; }
    void send(MsgInterface const& m) override { Raw const& x = static_cast<Raw const&>(m); got[n++] = {no, x.id, x.comp, x.payload}; }
    void start() override {}
    void stop() override {}
};
}
extern "C" void h_routing()
{
    ReactorManager mgr;
    auto* r0 = new rt::FakeReactor(0); auto* r1 = new rt::FakeReactor(1);
    ComponentId const c[3] = {sym<ComponentId>("comp0"), sym<ComponentId>("comp1"), sym<ComponentId>("comp2")};
    ASSUME(c[0] != c[1] && c[1] != c[2] && c[0] != c[2]);
    int const home[3] = {0, 1, 1};
    mgr.addReactor(std::unique_ptr<ReactorInterface>(r0)); mgr.addReactor(std::unique_ptr<ReactorInterface>(r1));
    for (int i = 0; i < 3; ++i) mgr.addComponent(std::make_unique<rt::Comp>(home[i] ? (ReactorInterface&)*r1 : *r0, mgr, c[i]));
    // a second component with an id already taken does not replace the first
    mgr.addComponent(std::make_unique<rt::Comp>(*r1, mgr, c[0]));
    for (int k = 0; k < 2; ++k)
    {
        Raw m; m.id = sym<MsgId>("id"); m.comp = sym<ComponentId>("to"); m.payload = sym<uint32_t>("payload");
        int const n0 = rt::n;
        mgr.send(m);
        int dst = -1;
        for (int i = 0; i < 3; ++i) if (m.comp == c[i]) dst = home[i];
        CHECK(rt::n == n0 + (dst >= 0 ? 1 : 0), "a message is handed to exactly one reactor, or dropped when nobody is its addressee");
        if (dst >= 0)
        {
            CHECK(rt::got[n0].reactor == dst, "a message goes to the reactor of the component it is addressed to");
            CHECK(rt::got[n0].id == m.id && rt::got[n0].comp == m.comp && rt::got[n0].p == m.payload, "routing does not change the message");
            sym_reach("routed");
        }
        else sym_reach("dropped");
        sym_trace((uint64_t)(dst + 1));
    }
}
// ------------------------------------------------------------------ link events
namespace le
{
int k, steps, lfd, nev; LinkEvent last; LinkPtr* l; bool conn, expectOne; uint32_t mask; uint32_t watched;
void verdict()
{
    if (!expectOne) { CHECK(nev == 0, "a link is notified only about events of its connection"); return; }
    CHECK(nev == 1, "every event of a connection is reported exactly once");
    bool const bad = (mask & ~(uint32_t)(EPOLLIN | EPOLLOUT)) != 0;
    if (mask == EPOLLIN) { CHECK(last == LinkEvent::data, "readiness to read is reported as data"); CHECK(sys::fds[lfd].open, "a connection with data stays open"); }
    if (mask == EPOLLOUT && !sys::failed) { CHECK(last == LinkEvent::connected, "an established connection is reported as connected"); CHECK(sys::fds[lfd].open && sys::fds[lfd].events == (uint32_t)(EPOLLIN | EPOLLET), "an established connection waits for data only"); sym_reach("established"); }
    if (mask == EPOLLOUT && sys::failed) { CHECK(last == LinkEvent::error && !sys::fds[lfd].open, "a connection that can not be watched is reported as an error and closed"); sym_reach("unwatchable"); }
    if (bad) { CHECK(last == LinkEvent::error, "an error or hang-up is reported as an error"); CHECK(!sys::fds[lfd].open, "a broken connection is closed"); sym_reach("broken"); }
    sym_trace((uint64_t)last);
    if (!sys::fds[lfd].open) { CHECK(last == LinkEvent::error, "a connection is closed only with an error"); conn = false; }
}
bool step()
{
    if (k) verdict();
    expectOne = false; nev = 0; sys::failed = 0;
    if (k++ == steps) return false;
    if (!conn) { (*l)->connect(addr); lfd = findFd(sys::conn); conn = lfd >= 0; CHECK(conn && (sys::fds[lfd].events & EPOLLOUT) && (sys::fds[lfd].events & EPOLLIN), "a connecting link waits for the connection and for data"); sys::faults = 1; sys::failed = 0; }
    mask = sym<uint32_t>("events");
    ASSUME(mask != 0 && (mask & ~(uint32_t)(EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP | EPOLLPRI)) == 0);
    ready[nReady++] = {lfd, mask};
    expectOne = true;
    return true;
}
}
extern "C" void h_link_events()
{
    Reactor r(init);
    LinkPtr l = r.createLink([](LinkEvent e) { ++le::nev; le::last = e; });
    le::l = &l; le::steps = THOROUGH ? 4 : 3;
    runLoop(r, le::step);
    CHECK(!sys::badClose && !sys::badUse, "no call is made on a descriptor that is not open");
}
// events of a listening socket, a connection, a timer and a connection accepted meanwhile, in batches
namespace es
{
int k, steps; int lfd, cfd, tfd, afd; int n[4], want[4]; unsigned bad; bool expired;
AcceptorPtr* acc; LinkPtr* late; bool accepted;
void hit(unsigned i) { ++n[i]; sym_trace(i); if (bad == i) { sym_reach("threw"); boom(); } }
void onAccept()
{
    if (!accepted) { (*acc)->accept(**late); accepted = true; afd = findFd(sys::conn, 1); }
    hit(0);
}
ssize_t rd(int fd, void* p, size_t sz)
{
    if (fd != tfd || !expired || sz < 8) { errno = EAGAIN; return -1; }
    uint64_t one = 1; memcpy(p, &one, 8); sys::fds[fd].armed = false; expired = false; return 8;
}
void verdict()
{
    CHECK(n[0] == want[0], "every incoming connection is reported to the handler of the socket it arrived at");
    CHECK(n[1] == want[1] && n[3] == want[3], "received data is reported to the handler of the connection it arrived at");
    CHECK(n[2] == want[2], "an expiry is reported to the handler of the timer");
}
bool step()
{
    if (k) verdict();
    if (k++ == steps) return false;
    bad = choose("thrower", 5);
    unsigned last = 9;
    unsigned const m = 1 + choose("batch", 2);
    for (unsigned j = 0; j < m; ++j)
    {
        unsigned const i = choose("source", 4);
        if (i == last || (i == 3 && !accepted)) continue;
        last = i;
        if (i == 2) { if (expired) continue; expired = true; }
        ready[nReady++] = {i == 0 ? lfd : i == 1 ? cfd : i == 2 ? tfd : afd, EPOLLIN};
        ++want[i];
        if (i == 3) sym_reach("data-of-accepted");
    }
    return true;
}
}
extern "C" void h_sources()
{
    Reactor r(init);
    AcceptorPtr a = r.createAcceptor([] { es::onAccept(); });
    LinkPtr l = r.createLink([](LinkEvent e) { CHECK(e == LinkEvent::data, "readiness to read is reported as data"); es::hit(1); });
    LinkPtr l2 = r.createLink([](LinkEvent e) { CHECK(e == LinkEvent::data, "readiness to read is reported as data"); es::hit(3); });
    TimerPtr t = r.createTimer([] { es::hit(2); });
    es::acc = &a; es::late = &l2; es::steps = THOROUGH ? 3 : 2; es::afd = -1;
    a->listen(addr); l->connect(addr); t->start(1000);
    es::lfd = findFd(sys::lsock); es::cfd = findFd(sys::conn); es::tfd = findFd(sys::timer);
    CHECK(es::lfd >= 0 && sys::fds[es::lfd].inEpoll && (sys::fds[es::lfd].events & EPOLLIN), "a listening socket is watched");
    sys::onRead = es::rd;
    runLoop(r, es::step);
    CHECK(!sys::badClose && !sys::badUse, "no call is made on a descriptor that is not open");
}
// the results of reading and writing
namespace io { long rc; int err; size_t len; int fd; void const* p; bool hit; }
extern "C" void h_link_io()
{
    Reactor r(init);
    LinkPtr l = r.createLink([](LinkEvent) {});
    uint8_t buf[64]; memset(buf, 0x5A, sizeof buf);
    CHECK(l->send(buf, 1) <= 0, "nothing is sent on a link without connection");
    CHECK(l->receive(buf, 1).status != LinkResult::ok, "nothing is received on a link without connection");
    l->connect(addr);
    io::fd = findFd(sys::conn);
    io::rc = (long)(int8_t)sym<uint8_t>("rc"); io::err = sym<int>("errno"); io::len = choose("len", 2) ? 40 : 1;
    ASSUME(io::rc >= -1 && io::rc <= (long)io::len);
    ASSUME(io::err > 0);
    if (chooseBool("isSend"))
    {
        sys::onWrite = [](int fd, void const* p, size_t n) -> ssize_t { CHECK(fd == io::fd && p == io::p && n == io::len, "exactly the given bytes are written"); io::hit = true; if (io::rc == -1 && io::err == EPIPE) { CHECK(sys::noSignal || sys::sigpipeIgnored, "sending to a peer that has closed the connection does not end the process"); sym_reach("peer-gone"); } errno = io::err; return io::rc; };
        io::p = buf;
        int const s = l->send(buf, io::len);
        CHECK(io::hit, "sending writes to the connection");
        CHECK((s > 0) == (io::rc == (long)io::len), "sending succeeds exactly when all bytes were taken");
        sym_reach(s > 0 ? "sent" : "not-sent");
        sym_trace((uint64_t)(s > 0));
    }
    else
    {
        sys::onRead = [](int fd, void* p, size_t n) -> ssize_t { CHECK(fd == io::fd && p == io::p && n == io::len, "reading fills exactly the given buffer"); io::hit = true; errno = io::err; return io::rc; };
        io::p = buf;
        LinkResult const res = l->receive(buf, io::len);
        CHECK(io::hit, "receiving reads from the connection");
        bool const again = io::rc == -1 && (io::err == EAGAIN || io::err == EWOULDBLOCK);
        if (io::rc > 0) { CHECK(res.status == LinkResult::ok && res.len == io::rc, "received bytes are reported with their number"); sym_reach("received"); }
        else if (io::rc == 0) { CHECK(res.status == LinkResult::closed, "a connection closed by the peer is reported as closed"); sym_reach("closed"); }
        else if (again) { CHECK(res.status == LinkResult::na, "no data yet is not an error"); sym_reach("again"); }
        else if (io::err != EINTR) { CHECK(res.status == LinkResult::error, "a failed read is an error"); sym_reach("read-error"); }
        sym_trace((uint64_t)res.status);
    }
}
// ------------------------------------------------------------------ pools of the reactor
namespace
{
// 32 entries of each kind: none is handed out twice, exhaustion is refused, released ones come back
template <class P, class MK> void pool(MK mk, bool symbolicFaults)
{
    P h[36]; int n = 0;
    unsigned const pre = 31;
    for (unsigned i = 0; i < pre; ++i) h[n++] = mk();
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) CHECK(h[i].get() != h[j].get(), "no entry is handed out twice");
    if (symbolicFaults) sys::faults = 2;
    for (int k = 0; k < (THOROUGH ? 6 : 5); ++k)
    {
        bool const alloc = chooseBool("alloc");
        if (alloc)
        {
            bool threw = false;
            int const f0 = sys::failed;
            P p;
            try { p = mk(); } catch (std::exception const&) { threw = true; }
            if (sys::failed == f0) CHECK(threw == (n == 32), "an entry is refused exactly when all are in use");
            else CHECK(threw, "creation fails when the system refuses");
            if (!threw) { for (int j = 0; j < n; ++j) CHECK(h[j].get() != p.get(), "no entry is handed out twice"); h[n++] = std::move(p); sym_reach("allocated"); }
            else sym_reach("exhausted");
        }
        else
        {
            unsigned const w = choose("which", 3);
            int const i = w == 0 ? 0 : w == 1 ? n / 2 : n - 1;
            if (n == 0) continue;
            h[i].reset();
            if (i != n - 1) { h[i] = std::move(h[n - 1]); }
            --n; sym_reach("released");
        }
        sym_trace((uint64_t)n);
    }
    sys::faults = 0;
    for (; n < 32; ++n) { bool threw = false; try { h[n] = mk(); } catch (std::exception const&) { threw = true; } CHECK(!threw, "every released or failed entry can be used again"); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) CHECK(h[i].get() != h[j].get(), "no entry is handed out twice");
}
}
extern "C" void h_pool_link() { Reactor r(init); pool<LinkPtr>([&] { return r.createLink([](LinkEvent) {}); }, false); }
extern "C" void h_pool_acceptor() { Reactor r(init); pool<AcceptorPtr>([&] { return r.createAcceptor([] {}); }, false); }
extern "C" void h_pool_timer() { Reactor r(init); pool<TimerPtr>([&] { return r.createTimer([] {}); }, true); }
// ------------------------------------------------------------------ wall clock
#include "TimeUtils.hpp"
extern "C" void h_datetime()
{
    int64_t const sec = (int64_t)(int32_t)sym<uint32_t>("sec_lo") + ((int64_t)(sym<uint8_t>("sec_hi") & 1) << 32);
    uint32_t const usec = sym<uint32_t>("usec");
    ASSUME(usec < 1000000u);
    ASSUME(sec >= 0);
    sys::wall.tv_sec = sec; sys::wall.tv_usec = usec;
    int64_t const v = app::utils::getCurrentDateTime();
    CHECK(v == sys::wallTicks(), "the time of day is given in 100 ns ticks since 1601-01-01 UTC");
    sym_trace((uint64_t)v);
    sym_reach("converted");
}
