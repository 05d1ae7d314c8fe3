// Modbus server, driven through the Modbus component.
#include "fake.h"
#include "Modbus.hpp"
#include "ModbusComponent.hpp"
#include "ModbusSessionPool.hpp"
#include "ModbusSessionHandler.hpp"
#include "ModbusAduStorage.hpp"
#include "MsgModbusInitReq.hpp"
#include "MsgModbusConfigReq.hpp"
#include "MsgModbusAduReq.hpp"
#include "MsgModbusAduRsp.hpp"
#include "MsgStore.hpp"
#include <new>
using namespace app;
using fake::LinkEvent;
using app::reactor::LinkResult;

namespace
{
fake::Reactor* R;
unsigned be(uint8_t const* p) { return (unsigned)p[0] << 8 | p[1]; }
uint32_t const server = 1;

struct Conn
{
    fake::Link* link = nullptr; fake::Timer* timer = nullptr;
    bool open = false, idKnown = false;
    uint32_t sid = 0;
    enum { idle, waiting, stalled } st = idle;
    uint16_t tid = 0, start = 0, items = 0; uint8_t addr = 0, func = 0;
    uint16_t old[8]; int nOld = 0;
    int sends = 0;
};
Conn conn[4];
int nConn = 0;
// the request the application has to receive next
struct Expect { bool on = false; int c = -1; uint8_t const* w = nullptr; unsigned n = 0; } ex;
int nFwd = 0;
void onMsg(app::reactor::MsgInterface const& m)
{
    if (m.getMsgId() != MsgModbusAduReq::msgId()) return;
    auto const& r = static_cast<MsgModbusAduReq const&>(m);
    ++nFwd;
    CHECK(ex.on, "something is forwarded to the application that is not a complete request");
    ex.on = false;
    Conn& c = conn[ex.c];
    CHECK(r.serverId == server, "a request carries the id of its server");
    for (int i = 0; i < nConn; ++i) if (i != ex.c && conn[i].open && conn[i].idKnown) CHECK(conn[i].sid != r.sessionId, "two connections share a session id");
    if (c.idKnown) CHECK(r.sessionId == c.sid, "a connection keeps its session id");
    c.idKnown = true; c.sid = r.sessionId;
    uint8_t const* w = ex.w;
    CHECK(r.transactId == be(w) && r.addr == w[6] && (uint8_t)r.func == w[7] && r.startItem == be(w + 8), "a request is forwarded with its own content");
    if (w[7] <= 4) CHECK(r.numItems == be(w + 10) && r.numBytes == 0, "a read request is forwarded with its own content");
    else if (w[7] == 6) CHECK(r.numBytes == 2 && r.data[0] == w[11] && r.data[1] == w[10], "a register write is forwarded with its value");
    else if (w[7] == 5) CHECK(r.numBytes == 2 && r.data[0] == w[10] && r.data[1] == w[11], "a coil write is forwarded with its value");
    else
    {
        CHECK(r.numItems == be(w + 10) && r.numBytes == w[12], "a multiple write is forwarded with its counts");
        for (unsigned i = 0; i + 13 < ex.n; i += 2) CHECK(r.data[i] == w[14 + i] && r.data[i + 1] == w[13 + i], "a multiple write is forwarded with its values");
    }
    sym_reach("forwarded");
}
bool faultSend = false;
bool sendOk(fake::Link&) { if (!faultSend) return true; return !chooseBool("sendfail"); }
int failAt = 0;                    // 1: no timer, 2: no link, 3: accept
bool timerOk() { return failAt != 1; }
bool linkOk() { return failAt != 2; }
bool acceptOk() { return failAt != 3; }
struct World
{
    fake::Reactor reactor;
    fake::Sender sender;
    modbus::ModbusComponent comp;
    World() : comp((sender.on = onMsg, sender), (R = &reactor, static_cast<app::reactor::ReactorInterface&>(reactor)))
    {
        fake::quiet(LogLevel::LI);
        app::reactor::MsgStore<MsgModbusInitReq> i; i.getMsg().maxNumServers = 2; i.getMsg().maxNumClients = 1;
        reactor.deliver(i.getMsg());
        app::reactor::MsgStore<MsgModbusConfigReq> c;
        c.getMsg().numItems = 1;
        c.getMsg().items[0].id = server; c.getMsg().items[0].mode = ModbusConfig::Mode::server;
        c.getMsg().items[0].addr = {app::reactor::LinkAddr::Type::ipv4, {127, 0, 0, 1, 2, 3}};
        reactor.deliver(c.getMsg());
        CHECK(reactor.acceptors[0].live && reactor.acceptors[0].listening, "a configured server listens");
        for (auto& l : reactor.links) l.sendOk = sendOk;
        reactor.timerOk = timerOk; reactor.linkOk = linkOk; reactor.acceptors[0].acceptOk = acceptOk;
    }
};
World& world() { static char mem[sizeof(World)] __attribute__((aligned(16))); return *new (mem) World; }

int accept(int fail)
{
    failAt = fail;
    int const lb = R->nLinksLive, tb = R->nTimersLive;
    bool liveT[fake::Reactor::N];
    for (int i = 0; i < fake::Reactor::N; ++i) liveT[i] = R->timers[i].live;
    fake::guarded([&] { R->acceptors[0].event(); });
    failAt = 0;
    if (fail)
    {
        CHECK(R->nLinksLive == lb && R->nTimersLive == tb, "a connection that can not be accepted leaves its link or timer behind");
        sym_reach("accept-failed");
        return -1;
    }
    CHECK(R->nLinksLive == lb + 1, "a connection is not accepted although sessions are free");
    Conn& c = conn[nConn++];
    c = Conn{};
    c.open = true; c.link = R->acceptors[0].last;
    for (int i = 0; i < fake::Reactor::N; ++i) if (R->timers[i].live && !liveT[i]) c.timer = &R->timers[i];
    CHECK(c.timer && c.timer->armed, "an accepted connection is not supervised by a timer");
    sym_reach("accepted");
    return nConn - 1;
}
void settle(Conn& c, bool mustClose, bool mayClose)
{
    bool const live = c.link->live && c.link->st == fake::Link::connected && c.timer->live;
    if (mustClose) CHECK(!c.link->live && !c.timer->live, "a connection that ended does not release its link and timer");
    else if (!mayClose) CHECK(live && c.timer->armed, "a connection is given up without reason or is not supervised any more");
    if (!live) c.open = false;
}
void data(int i, uint8_t const* p, unsigned n)
{
    Conn& c = conn[i];
    c.link->rx = p; c.link->rxLen = n; c.link->rxStatus = LinkResult::ok;
    int const before = c.link->nSend;
    fake::guarded([&] { c.link->event(LinkEvent::data); });
    CHECK(c.link->nSend == before, "something is sent before the application answered");
    c.link->rxLen = 0; c.link->rxStatus = LinkResult::na;
}
// a well-formed request of n bytes
void validRequest(uint8_t* w, unsigned n, uint8_t func)
{
    sym_make(w, n, "request");
    ASSUME(be(w + 2) == 0 && be(w + 4) == n - 6 && w[6] <= 247 && w[7] == func);
    if (func == 3 || func == 4) ASSUME(be(w + 10) >= 1 && be(w + 10) <= 125);
    if (func <= 2) ASSUME(be(w + 10) >= 1 && be(w + 10) <= 2000);
    if (func == 5) ASSUME(w[11] == 0 && (w[10] == 0 || w[10] == 0xff));
    if (func == 16) ASSUME(be(w + 10) == (n - 13) / 2 && w[12] == n - 13);
}
void remember(Conn& c, uint8_t const* w)
{
    for (int i = 0; i < c.nOld; ++i) ASSUME(c.old[i] != be(w));   // a peer does not re-use a transaction id
    if (c.nOld < 8) c.old[c.nOld++] = (uint16_t)be(w);
    c.st = Conn::waiting; c.tid = (uint16_t)be(w); c.addr = w[6]; c.func = w[7]; c.start = (uint16_t)be(w + 8); c.items = (uint16_t)be(w + 10);
}
void request(int i, uint8_t* w, unsigned n, uint8_t func)
{
    Conn& c = conn[i];
    validRequest(w, n, func);
    for (int k = 0; k < c.nOld; ++k) ASSUME(c.old[k] != be(w));
    ex.on = true; ex.c = i; ex.w = w; ex.n = n;
    data(i, w, n);
    CHECK(!ex.on, "a complete request is not forwarded");
    ex.on = false;
    remember(c, w);
    settle(c, false, false);
}
// the application answers; kind: 0 matching success, 1 exception, 2 failure status, 3 arbitrary ids
void respond(int i, unsigned kind, unsigned nb)
{
    Conn& c = conn[i];
    app::reactor::MsgStore<MsgModbusAduRsp> st;
    MsgModbusAduRsp& r = st.getMsg();
    r.serverId = server; r.sessionId = c.sid; r.transactId = c.tid;
    r.error = ModbusError::noerror; r.status = MsgStatus::success; r.numBytes = (uint16_t)nb;
    sym_make(r.data, nb ? nb : 1, "values");
    uint8_t e = 0;
    if (kind == 1) { e = sym<uint8_t>("code"); ASSUME(e >= 1 && e <= 8); r.error = static_cast<ModbusError>(e); }
    if (kind == 2) r.status = MsgStatus::error;
    bool match = true;
    if (kind == 3)
    {
        switch (choose("wrong", 4))
        {
        case 0: r.serverId = sym<uint32_t>("rspserver"); ASSUME(r.serverId != server); break;
        case 1: r.sessionId = sym<uint32_t>("rspsession"); ASSUME(r.sessionId >= 256); break;
        case 2: r.sessionId = (c.sid + (chooseBool("far") ? 255 : 3)) % 256; break;
        case 3: r.transactId = sym<uint16_t>("rsptid"); ASSUME(r.transactId != c.tid); break;
        }
        for (int k = 0; k < nConn; ++k) if (k != i && conn[k].open && conn[k].idKnown) ASSUME(r.serverId != server || r.sessionId != conn[k].sid);
        match = false;
    }
    int before[4];
    for (int k = 0; k < nConn; ++k) before[k] = conn[k].link->nSend;
    bool const waiting = c.open && c.st == Conn::waiting;
    fake::guarded([&] { R->deliver(r); });
    for (int k = 0; k < nConn; ++k) if (k != i && conn[k].link != c.link) CHECK(conn[k].link->nSend == before[k], "a response goes to another connection");
    int const sent = c.link->nSend - before[i];
    if (!c.open) { CHECK(!(c.link->live && c.link->st == fake::Link::connected) || sent == 0, "a response is sent on a connection that ended"); return; }
    if (!waiting || !match)
    {
        CHECK(sent == 0, "a response nobody waits for is sent");
        settle(c, false, false);
        sym_reach("unmatched");
        return;
    }
    bool const good = kind == 1 || (kind == 0 && (c.func == 16 || ((c.func == 3 || c.func == 4) && nb % 2 == 0 && nb <= 250) || (c.func == 6 && nb == 2)));
    if (kind == 0 && c.func == 16 && nb != 0) { CHECK(sent <= 1, "the answer of the application is sent once"); if (!sent && faultSend) settle(c, false, true); c.st = Conn::idle; return; }
    if (!good) { CHECK(sent == 0, "a response that failed is sent"); c.st = Conn::idle; settle(c, false, false); sym_reach("failed"); return; }
    if (sent == 0)
    {
        CHECK(faultSend, "the answer of the application is not sent");
        settle(c, true, true);
        sym_reach("send-failed");
        return;
    }
    CHECK(sent == 1, "the answer of the application is sent once");
    uint8_t const* w = c.link->tx;
    unsigned const n = c.link->txLen;
    CHECK(be(w) == c.tid && be(w + 2) == 0 && be(w + 4) == n - 6 && w[6] == c.addr, "a response carries transaction id and address of its request");
    if (kind == 1) CHECK(n == 9 && w[7] == (c.func | 0x80) && w[8] == e, "an exception response carries function and code");
    else
    {
        CHECK(w[7] == c.func, "a response carries the function of its request");
        if (c.func == 3 || c.func == 4)
        {
            CHECK(n == 9 + nb && w[8] == nb, "byte count of a read response");
            for (unsigned k = 0; k < nb; k += 2) CHECK(w[9 + k] == r.data[k + 1] && w[10 + k] == r.data[k], "values of a read response");
        }
        else
        {
            CHECK(n == 12 && be(w + 8) == c.start, "start item of a write response");
            if (c.func == 6) CHECK(w[10] == r.data[1] && w[11] == r.data[0], "value of a write response");
            if (c.func == 16) CHECK(be(w + 10) == c.items, "item count of a write response");
        }
    }
    c.st = Conn::idle;
    settle(c, false, false);
    sym_reach("responded");
}
void fire(int i)
{
    Conn& c = conn[i];
    int const before = c.link->nSend;
    bool const wasIdle = c.st == Conn::idle, stalled = c.st == Conn::stalled;
    fake::guarded([&] { c.timer->fire(); });
    CHECK(c.link->nSend == before, "a timeout sends something");
    settle(c, wasIdle, stalled);
    if (wasIdle) sym_reach("inactive"); else sym_reach("late");
    c.st = Conn::idle;
}
void end(int i, int st)
{
    Conn& c = conn[i];
    c.link->rxStatus = st;
    fake::guarded([&] { c.link->event(LinkEvent::data); });
    settle(c, true, true);
    sym_reach("ended");
}
}

namespace
{
uint8_t frames[8][20];
int nf = 0;
// anything happens, steps times
void events(int steps)
{
    faultSend = true;
    for (int i = 0; i < steps; ++i)
    {
        int const c = nConn == 1 ? 0 : (int)choose("conn", nConn);
        switch (choose("event", 6))
        {
        case 0:
            if (nConn >= 2) sym_end_path();
            accept((int)choose("acceptfail", 4));
            break;
        case 1:
        {
            if (!conn[c].open || conn[c].st != Conn::idle) sym_end_path();
            uint8_t const f = chooseBool("write") ? 6 : 3;
            request(c, frames[nf++], 12, f);
            break;
        }
        case 2:
        {
            if (!conn[c].open || conn[c].st != Conn::idle) sym_end_path();
            // a complete frame that is not a request
            uint8_t* w = frames[nf++];
            sym_make(w, 12, "junk");
            ASSUME(be(w + 4) == 6);
            ASSUME(be(w + 2) != 0 || w[6] > 247 || w[7] == 0 || (w[7] > 6 && w[7] != 16));
            data(c, w, 12);
            conn[c].st = Conn::stalled;
            settle(conn[c], false, true);
            sym_reach("junk");
            break;
        }
        case 3:
            if (!conn[c].idKnown) sym_end_path();
            respond(c, choose("rsp", 4), 2);
            break;
        case 4:
            if (!conn[c].open || !conn[c].timer->armed) sym_end_path();
            fire(c);
            break;
        case 5:
            if (!conn[c].open) sym_end_path();
            end(c, chooseBool("closed") ? LinkResult::closed : LinkResult::error);
            break;
        }
    }
}
}
extern "C" void h_mbs_history()
{
    world();
    accept(0);
    events(THOROUGH ? 7 : 5);
    sym_trace(nFwd);
}
// a connection is not affected by what an earlier one with its session did, however that one ended
extern "C" void h_mbs_second()
{
    world();
    accept(0);
    unsigned const life = choose("life", 5);
    if (life == 1) { validRequest(frames[nf], 12, 3); data(0, frames[nf++], 9); settle(conn[0], false, false); }
    if (life > 1) request(0, frames[nf++], 12, chooseBool("write") ? 6 : 3);
    if (life == 3) respond(0, 0, 2);
    if (life == 4) fire(0);
    bool const keep = conn[0].idKnown; Conn const old = conn[0];
    if (conn[0].st == Conn::idle && chooseBool("inactive")) fire(0); else end(0, chooseBool("closed") ? LinkResult::closed : LinkResult::error);
    for (int i = 0; i < 255; ++i) { nConn = 0; accept(0); end(0, LinkResult::closed); }
    nConn = 0;
    accept(0);
    // answers to what the earlier one asked
    if (keep && chooseBool("late"))
    {
        app::reactor::MsgStore<MsgModbusAduRsp> st;
        MsgModbusAduRsp& r = st.getMsg();
        r.serverId = server; r.sessionId = old.sid; r.transactId = old.tid; r.error = ModbusError::noerror; r.status = MsgStatus::success; r.numBytes = 2; sym_make(r.data, 2, "values");
        fake::guarded([&] { R->deliver(r); });
        CHECK(conn[0].link->nSend == 0, "a response nobody waits for is sent");
        settle(conn[0], false, false);
    }
    events(THOROUGH ? 4 : 3);
    sym_reach("second");
}
// every function and response size, one exchange after the other on one connection
extern "C" void h_mbs_exchange()
{
    world();
    accept(0);
    static uint8_t f1[40], f2[40];
    static uint8_t const fs[] = {1, 2, 3, 4, 5, 6, 16};
    uint8_t const f = fs[choose("func", 7)];
    request(0, f1, f == 16 ? 13 + 2 * choose("regs", 10) : 12, f);
    if (f == 1 || f == 2 || f == 5) { respond(0, 1, 0); request(0, f2, 12, 6); respond(0, 0, 2); return; }
    uint16_t nb = sym<uint16_t>("nb");
    ASSUME(nb <= (THOROUGH ? 600 : 24) || nb == 250 || nb == 252 || nb == 251 || nb == 260 || nb == 261 || nb == 300);
    nb = (uint16_t)sym_concretize(nb);
    respond(0, 0, nb);
    request(0, f2, 12, 3);
    respond(0, 0, 6);
}
// however sessions end, the server goes on accepting: 300 connections one after the other
extern "C" void h_mbs_reuse()
{
    world();
    unsigned const kind = choose("kind", 8);
    static uint8_t w[12];
    uint64_t heap = 0;
    for (int i = 0; i < 300; ++i)
    {
        if (i == 100) heap = sym_live_heap();
        if (kind >= 5) accept((int)kind - 4);
        nConn = 0;
        if (kind >= 5 && i % 100 != 99) continue;
        int const c = accept(0);
        faultSend = false;
        uint8_t const f[12] = {0, (uint8_t)i, 0, 0, 0, 6, 5, 3, 0, 0, 0, 1};
        std::memcpy(w, f, 12);
        if (kind == 1 || kind == 4)
        {
            ex.on = true; ex.c = c; ex.w = w; ex.n = 12;
            data(c, w, 12);
            CHECK(!ex.on, "a complete request is not forwarded");
            remember(conn[c], w);
        }
        switch (kind)
        {
        case 0: end(c, LinkResult::closed); break;
        case 1: end(c, LinkResult::error); break;
        case 2: fire(c); break;
        case 3: { uint8_t const g[12] = {0, 1, 0, 0, 0xff, 0xff, 5, 3, 0, 0, 0, 1}; std::memcpy(w, g, 12); data(c, w, 12); settle(conn[c], true, true); break; }
        case 4:
        {
            conn[c].link->sendOk = [](fake::Link&) { return false; };
            app::reactor::MsgStore<MsgModbusAduRsp> st;
            MsgModbusAduRsp& r = st.getMsg();
            r.serverId = server; r.sessionId = conn[c].sid; r.transactId = conn[c].tid; r.error = ModbusError::noerror; r.status = MsgStatus::success; r.numBytes = 2; r.data[0] = r.data[1] = 0;
            fake::guarded([&] { R->deliver(r); });
            settle(conn[c], true, true);
            break;
        }
        default: end(c, LinkResult::closed); break;
        }
        CHECK(R->nLinksLive == 0 && R->nTimersLive == 0, "an ended connection keeps its link or timer");
    }
    CHECK(sym_live_heap() <= heap, "connections that ended take up memory");
    sym_reach("reused");
}
// ------------------------------------------------------------------ framing
namespace
{
// cuts w[0..n) into pieces and delivers them; after the last one the request must have been forwarded
void pieces(int c, uint8_t const* w, unsigned n, unsigned maxPieces)
{
    unsigned pos = 0, k = 0;
    unsigned const idleAt = choose("spurious", 3);
    while (pos < n)
    {
        unsigned const left = n - pos;
        unsigned const take = ++k >= maxPieces ? left : 1 + choose("cut", left);
        if (k == idleAt)
        {
            int const f = nFwd;
            conn[c].link->rxStatus = LinkResult::na;
            fake::guarded([&] { conn[c].link->event(LinkEvent::data); });
            CHECK(nFwd == f, "a request is forwarded without data");
        }
        if (pos + take == n) { ex.on = true; ex.c = c; ex.w = w; ex.n = n; }
        data(c, w + pos, take);
        pos += take;
        settle(conn[c], false, false);
    }
    CHECK(!ex.on, "a complete request is not forwarded");
    ex.on = false;
    remember(conn[c], w);
    if (k > 3) sym_reach("many-pieces");
}
}
extern "C" void h_mbs_segments()
{
    world();
    accept(0);
    static uint8_t f1[40], f2[40];
    bool const multi = chooseBool("multi");
    validRequest(f1, multi ? 17 : 12, multi ? 16 : 3);
    pieces(0, f1, multi ? 17 : 12, multi ? (THOROUGH ? 5 : 3) : (THOROUGH ? 12 : 6));
    respond(0, 0, 2);
    validRequest(f2, 12, 6);
    ASSUME(be(f2) != conn[0].tid);
    pieces(0, f2, 12, THOROUGH ? 3 : 2);
    respond(0, 0, 2);
    sym_reach("both");
}
// long requests in two or three pieces, cut anywhere
extern "C" void h_mbs_segments_long()
{
    world();
    accept(0);
    static uint8_t f1[300], f2[40];
    static uint8_t const regs[] = {30, 90, 123, 11, 61, 122};
    unsigned const n = 13 + 2 * regs[choose("regs", THOROUGH ? 6 : 3)];
    validRequest(f1, n, 16);
    unsigned pos = 0;
    unsigned const np = 2 + choose("three", 2);
    for (unsigned k = 1; k < np; ++k)
    {
        // three pieces: one of them is shorter than the fixed part of a frame
        unsigned const lim = np == 3 && k == 1 ? 13 : 250;
        unsigned const cut = 1 + choose("cut", (n - 1 - pos) < lim ? n - 1 - pos : lim);
        data(0, f1 + pos, cut);
        settle(conn[0], false, false);
        pos += cut;
        if (pos + 1 >= n || (k == 1 && np == 3 && !THOROUGH && cut != 1 && cut != 7 && cut != 12)) break;
    }
    if (np == 2) fake::guarded([&] { conn[0].link->event(LinkEvent::data); });
    ex.on = true; ex.c = 0; ex.w = f1; ex.n = n;
    data(0, f1 + pos, n - pos);
    CHECK(!ex.on, "a complete request is not forwarded");
    remember(conn[0], f1);
    settle(conn[0], false, false);
    respond(0, 0, 0);
    request(0, f2, 12, 6);
    respond(0, 0, 2);
    sym_reach("long");
}
// a connection that was lost in the middle of a frame does not spoil the next connection
extern "C" void h_mbs_segments_lost()
{
    world();
    static uint8_t f0[12], f1[12];
    // many sessions, so that the session of the lost connection is used again
    accept(0);
    validRequest(f0, 12, 3);
    unsigned const part = choose("part", 12);
    if (part) data(0, f0, part);
    settle(conn[0], false, false);
    if (chooseBool("inactive")) fire(0); else end(0, LinkResult::closed);
    fake::Link* first = conn[0].link;
    for (int i = 0; i < 256; ++i)
    {
        nConn = 0;
        accept(0);
        if (i == 0 || i == 255)
        {
            validRequest(f1, 12, 6);
            ex.on = true; ex.c = 0; ex.w = f1; ex.n = 12;
            data(0, f1, 12);
            CHECK(!ex.on, "a complete request is not forwarded");
            remember(conn[0], f1);
            respond(0, 0, 2);
        }
        end(0, LinkResult::closed);
    }
    sym_reach("reused");
}
// ------------------------------------------------------------------ pools
namespace
{
struct Handler : modbus::ModbusSessionHandler { void onReleaseSession(modbus::ModbusSession::Uid) override {} };
}
extern "C" void h_pool_mbsession()
{
    fake::quiet();
    Handler h;
    unsigned const cap = 3;
    modbus::ModbusSessionPool pool(h, cap);
    bool used[cap] = {};
    int n = 0;
    int const steps = THOROUGH ? 10 : 8;
    for (int i = 0; i < steps; ++i)
    {
        if (chooseBool("alloc"))
        {
            modbus::ModbusSession::Uid u = 99;
            bool const ok = pool.alloc(u);
            CHECK(ok == (n < (int)cap), "a session is refused exactly when all are in use");
            if (!ok) { sym_reach("exhausted"); continue; }
            CHECK(u < cap && !used[u], "a session in use is handed out");
            for (unsigned k = 0; k < cap; ++k) if (used[k]) CHECK(&pool.get(k) != &pool.get(u), "two ids name one session");
            used[u] = true; ++n; sym_reach("allocated");
        }
        else
        {
            unsigned const u = choose("which", cap);
            if (!used[u]) sym_end_path();
            pool.free(u); used[u] = false; --n; sym_reach("released");
        }
    }
}
extern "C" void h_pool_mbadu()
{
    fake::quiet();
    static modbus::ModbusAduStorage st;
    struct M { uint32_t tid; uint16_t start, bytes; uint8_t d[8]; };
    static M m[200];
    int head = 0, tail = 0;
    auto push = [&](bool symb, unsigned nb) {
        M& x = m[tail];
        x.tid = symb ? sym<uint32_t>("tid") : 1000 + tail;
        x.start = symb ? sym<uint16_t>("start") : (uint16_t)tail;
        x.bytes = (uint16_t)nb;
        if (symb && nb <= 8 && nb) sym_make(x.d, nb, "data"); else for (unsigned i = 0; i < 8; ++i) x.d[i] = (uint8_t)(tail * 7 + i);
        static uint8_t src[300];
        std::memset(src, 0, sizeof(src));
        std::memcpy(src, x.d, 8);
        modbus::AduRequest a;
        a.clientId = 3; a.transactId = x.tid; a.func = ModbusFunction::presetMultipleRegisters; a.addr = 4; a.startItem = x.start; a.numItems = 9; a.numBytes = x.bytes; a.data = src;
        bool const ok = st.push(a);
        std::memset(src, 0xee, sizeof(src));
        bool const fits = tail - head < 64 && nb <= 260;
        CHECK(ok == fits, "a request is refused exactly when 64 are stored or it is larger than a frame");
        if (ok) { ++tail; sym_reach("stored"); } else sym_reach("refused");
    };
    auto pop = [&] {
        CHECK(st.empty() == (head == tail), "the storage knows whether it is empty");
        if (head == tail) return;
        M const& x = m[head];
        modbus::AduRequest const& a = st.front();
        CHECK(a.transactId == x.tid && a.startItem == x.start && a.numBytes == x.bytes && a.clientId == 3 && a.addr == 4 && a.numItems == 9, "a stored request comes back in order and unchanged");
        unsigned const n = x.bytes < 8 ? x.bytes : 8;
        for (unsigned i = 0; i < n; ++i) CHECK(a.data[i] == x.d[i], "the data of a stored request comes back unchanged");
        if (x.bytes == 260) sym_check_read(a.data, 260);
        st.pop(); ++head; sym_reach("popped");
    };
    // wrap around first, then near the capacity
    int const pre = (int)choose("pre", 3) * 30;
    for (int i = 0; i < pre; ++i) { push(false, 4); pop(); }
    for (int i = 0; i < 62; ++i) push(false, i % 3 ? 260 : 6);
    int const steps = THOROUGH ? 7 : 5;
    for (int i = 0; i < steps; ++i)
    {
        unsigned const k = choose("op", 5);
        if (k == 0) pop();
        else push(true, k == 1 ? 0 : k == 2 ? 4 : k == 3 ? 260 : 261 + choose("over", 2) * 65000 % 65000);
    }
    while (head != tail) pop();
    CHECK(st.empty(), "the storage is empty again");
}
