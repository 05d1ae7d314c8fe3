// The application as a whole: controller, Modbus and OPC UA components on three reactors that run at the same time,
// routed by the real ReactorManager.
#include "fake.h"
#include "ReactorManager.hpp"
#include "ModbusComponent.hpp"
#include "Modbus.hpp"
#include "UaTransport.hpp"
#include "UaTransportComponent.hpp"
#include "UaSecureChannel.hpp"
#include "UaSecureChannelComponent.hpp"
#include "UaService.hpp"
#include "UaServiceComponent.hpp"
#include "ControllerComponent.hpp"
#include "MsgStore.hpp"
#include <cstdlib>
#include <memory>
#include <new>
#include <time.h>
using namespace app;
using fake::LinkEvent;
using app::reactor::LinkResult;

extern "C" int rand() { static int n = 1000; return n += 7919; }
extern "C" void srand(unsigned) {}
// while the controller waits, the other reactors go on
static void waiting();
extern "C" int nanosleep(timespec const*, timespec*) { waiting(); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, timespec const*, timespec*) { waiting(); return 0; }

namespace
{
enum { ctl, mb, ua_, nNodes };
struct Msg { Msg* next; alignas(16) uint8_t mem[1]; };
int nInit[3], nConfig[3], nRelease[4];                 // answers seen per OPC UA component
struct Node : fake::Reactor
{
    Msg* head = nullptr; Msg** tail = &head;
    int n = 0;
    void send(app::reactor::MsgInterface const& m) override
    {
        std::size_t const len = m.size();
        CHECK(len <= app::reactor::maxMsgSize, "a message larger than the largest message size is sent");
        CHECK(++n < 60, "messages to a component pile up");
        Msg* x = static_cast<Msg*>(std::malloc(offsetof(Msg, mem) + len));
        std::memcpy(x->mem, &m, len);
        x->next = nullptr;
        *tail = x; tail = &x->next;
    }
    void step()
    {
        Msg* x = head;
        head = x->next; --n;
        if (!head) tail = &head;
        auto& m = *reinterpret_cast<app::reactor::MsgInterface*>(x->mem);
        bool known = false;
        fake::guarded([&] { known = deliver(m); });
        CHECK(known, "a message goes to a component that does not handle it");
        std::free(x);
    }
};
Node* node[nNodes];
struct Sys
{
    app::reactor::ReactorManager manager;
    Sys()
    {
        fake::quiet(LogLevel::LI);
        for (auto& x : node) x = new Node;
        manager.addComponent(std::unique_ptr<app::reactor::ComponentInterface>(new modbus::ModbusComponent(manager, *node[mb])));
        manager.addComponent(std::unique_ptr<app::reactor::ComponentInterface>(new ua::transport::UaTransportComponent(manager, *node[ua_])));
        manager.addComponent(std::unique_ptr<app::reactor::ComponentInterface>(new ua::securechannel::UaSecureChannelComponent(manager, *node[ua_])));
        manager.addComponent(std::unique_ptr<app::reactor::ComponentInterface>(new ua::service::UaServiceComponent(manager, *node[ua_])));
        manager.addComponent(std::unique_ptr<app::reactor::ComponentInterface>(new controller::ControllerComponent(manager, *node[ctl])));
    }
    void start() { app::reactor::MsgStore<MsgControllerStartReq> m; manager.send(m.getMsg()); }
    void stop() { app::reactor::MsgStore<MsgControllerStopReq> m; manager.send(m.getMsg()); }
};
Sys& sys() { static char mem[sizeof(Sys)] __attribute__((aligned(16))); return *new (mem) Sys; }

// one message is handled by one of the reactors that have some; by default the same as before, with some deviations
int cur = 0, deviations = 0;
bool stepOne()
{
    int can[nNodes], k = 0;
    for (int i = 0; i < nNodes; ++i) { int const j = (cur + i) % nNodes; if (node[j]->n) can[k++] = j; }
    if (!k) return false;
    int w = 0;
    if (k > 1 && deviations > 0) { w = choose("who", k); if (w) --deviations; }
    cur = can[w];
    node[cur]->step();
    return true;
}
void quiet() { for (int i = 0; stepOne(); ++i) CHECK(i < 300, "the components never come to rest"); }
fake::Acceptor* listening(Node* n)
{
    fake::Acceptor* r = nullptr;
    for (auto& a : n->acceptors) if (a.live && a.listening) { CHECK(!r, "a server listens twice"); r = &a; }
    return r;
}
bool isAddr(app::reactor::LinkAddr const& a, uint8_t p0, uint8_t p1) { return a.data[0] == 127 && a.data[1] == 0 && a.data[2] == 0 && a.data[3] == 1 && a.data[4] == p0 && a.data[5] == p1; }
void started()
{
    auto m = listening(node[mb]); auto u = listening(node[ua_]);
    CHECK(m && u, "a started server does not listen");
    CHECK(isAddr(m->addr, 0x2f, 0x71) && isAddr(u->addr, 0x11, 0x11), "a server listens on another address");
    sym_reach("started");
}
void stopped()
{
    for (auto* n : node) CHECK(!n->nLinksLive && !n->nTimersLive && !n->nAccLive, "something is still in use after the stop");
    sym_reach("stopped");
}
fake::Link* clientLink()
{
    fake::Link* r = nullptr;
    for (auto& l : node[mb]->links) if (l.live && l.fd == -1) { CHECK(!r, "the client has two links"); r = &l; }
    return r;
}
// an OPC UA client connects and says Hello
void uaClient(int upTo)
{
    fake::Acceptor* a = listening(node[ua_]);
    if (!a || !upTo) return;
    a->event();
    if (upTo < 2) return;
    static uint8_t const hello[32] = {'H', 'E', 'L', 'F', 32, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff};
    fake::Link* l = a->last;
    l->rx = hello; l->rxLen = sizeof(hello); l->rxStatus = LinkResult::ok;
    fake::guarded([&] { l->event(LinkEvent::data); });
    l->rxStatus = LinkResult::na;
    sym_reach("client");
}
} // namespace
// the Modbus client reaches the server
static fake::Link* server;                   // the server's end of the client's connection
static void connectUp()
{
    fake::Link* c = clientLink();
    CHECK(c && c->st == fake::Link::connecting && isAddr(c->addr, 0x2f, 0x71), "the client does not connect to its server");
    c->st = fake::Link::connected;
    c->event(LinkEvent::connected);
    listening(node[mb])->event();
    server = listening(node[mb])->last;
}
static void waiting()
{
    fake::Link* c = clientLink();
    if (listening(node[mb]) && !(c && c->st == fake::Link::connected)) connectUp();
}

// start and stop in any order, at any point of what is still going on
extern "C" void h_ctl_startstop()
{
    Sys& s = sys();
    int64_t const heap = sym_live_heap();
    int const n = 2 + choose("actions", 2 + THOROUGH);
    deviations = 3 - n + THOROUGH;
    bool on = false;
    for (int i = 0; i < n; ++i)
    {
        if (on || chooseBool("stop")) { s.stop(); if (!on) sym_reach("not-started"); on = false; }
        else { s.start(); on = true; }
        bool all = i < n - 1;
        for (int k = 0; i < n - 1; ++k)
        {
            CHECK(k < 100, "the components never come to rest");
            if (chooseBool("next")) { all = false; break; }
            if (!stepOne()) break;
        }
        if (!all) continue;
        if (on) { started(); uaClient(choose("uaclient", 3)); } else stopped();
    }
    quiet();
    if (on) started();
    if (on) { s.stop(); quiet(); }
    stopped();
    CHECK(sym_live_heap() == heap, "memory is still in use after the stop");
}

namespace
{
unsigned be(uint8_t const* p) { return p[0] << 8 | p[1]; }
// a further Modbus client sends one frame; the number of bytes it gets back
unsigned roundTrip(fake::Link* l, uint8_t const* w, unsigned n)
{
    l->txLen = 0; l->nSend = 0;
    l->rx = w; l->rxLen = n; l->rxStatus = LinkResult::ok;
    fake::guarded([&] { l->event(LinkEvent::data); });
    l->rxLen = 0; l->rxStatus = LinkResult::na;
    quiet();
    CHECK(l->nSend <= 1, "a request is answered twice");
    if (!l->nSend) { sym_reach("refused"); return 0; }              // the test data says "error" for some transactions
    CHECK(be(l->tx) == be(w) && be(l->tx + 2) == 0 && be(l->tx + 4) + 6 == l->txLen && l->tx[6] == w[6] && (l->tx[7] & 0x7f) == w[7], "a response does not belong to its request");
    if (l->tx[7] & 0x80) { CHECK(l->txLen == 9, "an exception response of wrong length"); sym_reach("exception"); return 0; }
    return l->txLen;
}
fake::Link* mbConnect()
{
    fake::Acceptor* a = listening(node[mb]);
    CHECK(a, "a started server does not listen");
    a->event();
    CHECK(a->last && a->last->live, "a connection is not accepted");
    return a->last;
}
// the position of the first register: anywhere near the ends of what the application has, or outside of that
void edges(uint8_t const* w) { if (!THOROUGH) ASSUME(be(w + 8) < 4 || be(w + 8) > 896); }
void up(Sys& s) { s.start(); quiet(); started(); }
} // namespace

// a Modbus client sends requests with any transaction, unit, address and values
extern "C" void h_ctl_request()
{
    up(sys());
    fake::Link* l = mbConnect();
    static uint8_t const funcs[] = {3, 4, 6, 16, 1, 2, 5};
    uint8_t const f = funcs[choose("func", 7)];
    unsigned const k = f == 16 ? 1 + choose("regs", 3) : 0;
    unsigned const n = f == 16 ? 13 + 2 * k : 12;
    static uint8_t w[20];
    sym_make(w, n, "request");
    ASSUME(be(w + 2) == 0 && be(w + 4) == n - 6 && w[6] <= 247 && w[7] == f);
    if (f == 16) ASSUME(be(w + 10) == k && w[12] == 2 * k);
    if (f == 3 || f == 4) ASSUME(be(w + 10) == 2 || be(w + 10) == 125);
    if (f <= 2) ASSUME(be(w + 10) >= 1 && be(w + 10) <= 2000);
    if (f == 5) ASSUME(w[11] == 0 && (w[10] == 0 || w[10] == 0xff));
    edges(w);
    unsigned const r = roundTrip(l, w, n);
    if (!r) return;
    if (f == 3 || f == 4) { CHECK(r == 9 + 2 * be(w + 10) && l->tx[8] == 2 * be(w + 10), "a read response of wrong length"); sym_reach("read"); }
    else if (f == 6 || f == 16) { CHECK(r == 12 && be(l->tx + 8) == be(w + 8) && be(l->tx + 10) == be(w + 10), "a write is not confirmed as it was requested"); sym_reach("written"); }
}
// what was written is read back
extern "C" void h_ctl_readback()
{
    up(sys());
    fake::Link* l = mbConnect();
    bool const multi = chooseBool("multi");
    unsigned const k = multi ? 1 + choose("regs", 2) : 1, n = multi ? 13 + 2 * k : 12;
    static uint8_t w[20], q[12];
    sym_make(w, n, "write");
    ASSUME(be(w + 2) == 0 && be(w + 4) == n - 6 && w[6] <= 247 && w[7] == (multi ? 16 : 6));
    if (multi) ASSUME(be(w + 10) == k && w[12] == 2 * k);
    edges(w);
    if (!roundTrip(l, w, n)) return;
    std::memcpy(q, w, 12);
    q[5] = 6; q[7] = chooseBool("input") ? 4 : 3; q[10] = 0; q[11] = (uint8_t)k;
    unsigned const r = roundTrip(l, q, 12);
    CHECK(r == 9 + 2 * k, "registers that were written can not be read");
    for (unsigned i = 0; i < 2 * k; ++i) CHECK(l->tx[9 + i] == w[(multi ? 13 : 10) + i], "a register does not read back as written");
    sym_reach("readback");
}

namespace
{
// the network between the Modbus client and the server: moves what was sent, one step at a time
uint8_t wire[300];
bool isUp(fake::Link* l) { return l && l->live && l->st == fake::Link::connected; }
bool carry(fake::Link* from, fake::Link* to)
{
    if (!isUp(from) || !from->txLen || !isUp(to)) return false;
    unsigned const n = from->txLen;
    CHECK(n <= sizeof(wire), "more than one frame is under way");
    std::memcpy(wire, from->tx, n);
    from->txLen = 0;
    to->rx = wire; to->rxLen = n; to->rxStatus = LinkResult::ok;
    fake::guarded([&] { to->event(LinkEvent::data); });
    to->rxLen = 0; to->rxStatus = LinkResult::na;
    return true;
}
bool hangUp(fake::Link* from, fake::Link* to)
{
    if (isUp(from) || !isUp(to)) return false;
    to->rxStatus = LinkResult::closed;
    fake::guarded([&] { to->event(LinkEvent::data); });
    if (to->live) to->rxStatus = LinkResult::na;
    return true;
}
bool network()
{
    fake::Link* c = clientLink();
    if (c && c->st == fake::Link::connecting && listening(node[mb])) { connectUp(); return true; }
    return carry(c, server) || carry(server, c) || hangUp(c, server) || hangUp(server, c);
}
long now = 0, due[nNodes][fake::Reactor::N];
int seen[nNodes][fake::Reactor::N];
void clocks()
{
    for (int i = 0; i < nNodes; ++i) for (int k = 0; k < fake::Reactor::N; ++k)
    {
        auto& t = node[i]->timers[k];
        if (t.live && t.armed && t.nStart != seen[i][k]) { seen[i][k] = t.nStart; due[i][k] = now + t.timeout; }
    }
}
bool expire()
{
    fake::Timer* first = nullptr; long at = 0;
    for (int i = 0; i < nNodes; ++i) for (int k = 0; k < fake::Reactor::N; ++k)
    {
        auto& t = node[i]->timers[k];
        if (t.live && t.armed && (!first || due[i][k] < at)) { first = &t; at = due[i][k]; }
    }
    if (!first) return false;
    now = at;
    fake::guarded([&] { first->fire(); });
    return true;
}
bool pausing() { for (auto& t : node[ctl]->timers) if (t.live && t.armed) return true; return false; }
} // namespace

// the built-in test of the Modbus client against the Modbus server passes, whatever the order of the messages, and
// again after its pause; a stop at any point ends it
extern "C" void h_ctl_selftest()
{
    Sys& s = sys();
    s.start();
    bool const interrupt = chooseBool("interrupt");
    deviations = interrupt ? 0 : 2 + THOROUGH;
    bool up = false;
    int rounds = 0;
    for (int i = 0; rounds < 2; ++i)
    {
        CHECK(i < 1000, "the test does not come to an end");
        if (interrupt && rounds == 0 && chooseBool("stop")) { s.stop(); quiet(); stopped(); sym_reach("interrupted"); return; }
        bool const idle = !node[ctl]->n && !node[mb]->n && !node[ua_]->n;
        bool net = false;
        if (!idle && !interrupt && deviations > 0 && chooseBool("net")) { net = network(); if (!net) sym_end_path(); --deviations; }
        if (!net && !stepOne() && !network())
        {
            if (pausing()) { ++rounds; sym_reach("passed"); }
            CHECK(expire(), "the test stops in the middle");
        }
        clocks();
        if (up) started();
        else up = listening(node[mb]) && listening(node[ua_]);
    }
    s.stop(); quiet(); stopped();
}
