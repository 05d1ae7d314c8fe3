// Modbus client, driven through the Modbus component: every accepted request is answered exactly once.
#include "fake.h"
#include "Modbus.hpp"
#include "ModbusComponent.hpp"
#include "MsgModbusInitReq.hpp"
#include "MsgModbusConfigReq.hpp"
#include "MsgModbusClientAduReq.hpp"
#include "MsgModbusClientAduRsp.hpp"
#include "MsgStore.hpp"
#include <new>
using namespace app;
using fake::LinkEvent;
using app::reactor::LinkResult;

namespace
{
fake::Reactor* R;
fake::Link* L;
fake::Timer* T;

struct Rq
{
    uint32_t clientId, tid; uint8_t func; uint16_t addr, start, items, bytes; uint8_t data[8];
    int sent = 0, answered = 0; bool ok = false;
};
Rq rq[80];
int nRq = 0;
int cur = -1;                       // request on the wire, awaiting its response
uint8_t rx[600]; unsigned rxLen = 0; // received since then
int nRsp = 0;
int expectRsp = -1;                 // while data is delivered: what the client has to report
enum { none, success, exception, failure } expectKind = none;
uint8_t expectErr = 0; unsigned expectBytes = 0; uint8_t expectData[300];
bool inDeliver = false;
unsigned be(uint8_t const* p) { return (unsigned)p[0] << 8 | p[1]; }

void onMsg(app::reactor::MsgInterface const& m)
{
    if (m.getMsgId() != MsgModbusClientAduRsp::msgId()) return;
    auto const& r = static_cast<MsgModbusClientAduRsp const&>(m);
    ++nRsp;
    int k = -1;
    for (int i = 0; i < nRq; ++i) if (!rq[i].answered && rq[i].tid == r.transactId) { k = i; break; }
    CHECK(k >= 0, "a response for a request that does not exist or was answered before");
    CHECK(rq[k].clientId == r.clientId, "a response carries the client id of its request");
    rq[k].answered = 1;
    if (r.status == MsgStatus::success)
    {
        CHECK(k == cur && inDeliver && (expectKind == success || expectKind == exception), "a request is reported successful although no matching response arrived");
        if (expectKind == exception) { CHECK((uint8_t)r.error == expectErr && r.numBytes == 0, "the exception code is reported"); sym_reach("exception"); }
        else
        {
            CHECK(r.error == ModbusError::noerror, "a successful response is reported as an exception");
            CHECK(r.numBytes == expectBytes, "the number of bytes of the response is reported");
            for (unsigned i = 0; i < expectBytes; ++i) CHECK(r.data[i] == expectData[i], "the values of the response are reported");
            sym_reach("success");
        }
        rq[k].ok = true;
    }
    else
    {
        CHECK(!(inDeliver && k == cur && (expectKind == success || expectKind == exception)), "a matching response is reported as an error");
        sym_reach("error");
    }
    if (k == cur) cur = -1;
}
bool faultSend = false;
bool sendOk(fake::Link&) { if (!faultSend) return true; return !chooseBool("sendfail"); }
bool connectOk(fake::Link&) { return !chooseBool("connectfail"); }
void onSend(fake::Link& l)
{
    // the oldest unanswered request is on the wire
    int k = -1;
    for (int i = 0; i < nRq; ++i) if (!rq[i].answered) { k = i; break; }
    CHECK(k >= 0, "a frame is sent although no request is waiting");
    CHECK(cur == -1, "a request is sent while another one is in progress");
    Rq& q = rq[k];
    CHECK(!q.sent, "a request is sent twice");
    q.sent = 1; cur = k; rxLen = 0;
    uint8_t const* w = l.tx;
    CHECK(l.txLen == (q.func == 16 ? 13u + q.bytes : 12u), "length of the request frame");
    CHECK(be(w) == (q.tid & 0xffff) && be(w + 2) == 0 && be(w + 4) == l.txLen - 6 && w[6] == q.addr && w[7] == q.func && be(w + 8) == q.start, "the request goes over the wire with its own content");
    if (q.func <= 4) CHECK(be(w + 10) == q.items, "item count of the request frame");
    if (q.func == 6) CHECK(be(w + 10) == (q.data[0] | (unsigned)q.data[1] << 8), "value of the request frame");
    if (q.func == 16) for (unsigned i = 0; i < q.bytes; i += 2) CHECK(be(w + 13 + i) == (q.data[i] | (unsigned)q.data[i + 1] << 8), "values of the request frame");
    sym_reach("sent");
}
struct World
{
    fake::Reactor reactor;
    fake::Sender sender;
    modbus::ModbusComponent comp;
    World() : comp((sender.on = onMsg, sender), (R = &reactor, static_cast<app::reactor::ReactorInterface&>(reactor)))
    {
        fake::quiet(LogLevel::LI);
        app::reactor::MsgStore<MsgModbusInitReq> i; i.getMsg().maxNumServers = 1; i.getMsg().maxNumClients = 2;
        reactor.deliver(i.getMsg());
        for (auto& l : reactor.links) { l.sendOk = sendOk; l.onSend = onSend; }
    }
    void config(uint32_t id = 1)
    {
        app::reactor::MsgStore<MsgModbusConfigReq> c;
        c.getMsg().numItems = 1;
        c.getMsg().items[0].id = id; c.getMsg().items[0].mode = ModbusConfig::Mode::client;
        c.getMsg().items[0].addr = {app::reactor::LinkAddr::Type::ipv4, {127, 0, 0, 1, 2, 3}};
        fake::guarded([&] { reactor.deliver(c.getMsg()); });
        L = &reactor.links[0]; T = &reactor.timers[0];
    }
};
World& world() { static char mem[sizeof(World)] __attribute__((aligned(16))); return *new (mem) World; }

void request(uint8_t func, bool wild, uint32_t client = 1)
{
    Rq& q = rq[nRq++];
    q.clientId = client;
    q.tid = sym<uint32_t>("tid");
    for (int i = 0; i < nRq - 1; ++i) ASSUME((uint16_t)rq[i].tid != (uint16_t)q.tid);
    q.func = func;
    q.addr = sym<uint16_t>("addr");
    if (!wild) ASSUME(q.addr <= 247);
    q.start = sym<uint16_t>("start");
    q.items = func <= 4 ? sym<uint16_t>("items") : func == 16 ? 2 : 0;
    if (!wild && func <= 4) ASSUME(q.items >= 1 && q.items <= 125);
    q.bytes = func <= 4 ? 0 : func == 16 ? 4 : 2;
    sym_make(q.data, q.bytes ? q.bytes : 1, "value");
    app::reactor::MsgStore<MsgModbusClientAduReq> m;
    m.getMsg().numItems = 1;
    auto& it = m.getMsg().item(0);
    it.clientId = q.clientId; it.transactId = q.tid; it.func = static_cast<ModbusFunction>(func); it.addr = q.addr; it.startItem = q.start; it.numItems = q.items; it.numBytes = q.bytes;
    std::memcpy(it.data, q.data, q.bytes);
    fake::guarded([&] { R->deliver(m.getMsg()); });
    // the caller's message is gone afterwards
    std::memset(&it, 0xee, sizeof(it) + q.bytes);
}
// what the client has to do with the bytes received so far for the request on the wire
void expectation()
{
    expectKind = none; expectErr = 0; expectBytes = 0;
    if (cur < 0 || rxLen < 6) return;
    unsigned const len = be(rx + 4);
    if (len + 6 != rxLen) { if (len + 6 < rxLen || len + 6 >= 260) expectKind = failure; return; }
    Rq const& q = rq[cur];
    expectKind = failure;
    if (len < 3 || be(rx) != (q.tid & 0xffff) || be(rx + 2) != 0 || rx[6] != q.addr || (rx[7] & 0x7f) != q.func) return;
    if (rx[7] & 0x80) { if (len == 3 && rx[8]) { expectKind = exception; expectErr = rx[8]; } return; }
    if (q.func == 3 || q.func == 4)
    {
        if (len == 3u + rx[8] && rx[8] % 2 == 0) { expectKind = success; expectBytes = rxLen - 9; for (unsigned i = 0; i < expectBytes; i += 2) { expectData[i] = rx[10 + i]; expectData[i + 1] = rx[9 + i]; } }
    }
    else if (len == 6 && q.func == 6) { expectKind = success; expectBytes = 2; expectData[0] = rx[11]; expectData[1] = rx[10]; }
    else if (len == 6 && q.func == 5) { expectKind = success; expectBytes = 2; expectData[0] = rx[10]; expectData[1] = rx[11]; }
    else if (len == 6 && q.func == 16) { expectKind = success; expectBytes = 0; }
}
void deliver(uint8_t const* p, unsigned n)
{
    bool const awaited = cur >= 0;
    int const k = cur;
    if (awaited) { std::memcpy(rx + rxLen, p, n); rxLen += n; }
    expectation();
    L->rx = p; L->rxLen = n; L->rxStatus = LinkResult::ok;
    inDeliver = true;
    fake::guarded([&] { L->event(LinkEvent::data); });
    inDeliver = false;
    if (awaited && expectKind != none) CHECK(rq[k].answered, "a complete response does not end the wait");
    if (awaited && expectKind == none) CHECK(!rq[k].answered, "an incomplete response ends the wait");
    expectKind = none;
    L->rxLen = 0; L->rxStatus = LinkResult::na;
}
void status(int st)
{
    L->rxStatus = st;
    fake::guarded([&] { L->event(LinkEvent::data); });
    L->rxStatus = LinkResult::na;
}
void fire() { int const k = cur; fake::guarded([&] { T->fire(); }); }
bool allAnswered() { for (int i = 0; i < nRq; ++i) if (!rq[i].answered) return false; return true; }
// nothing more arrives: the timers alone must end every wait
void drain(int max)
{
    for (int i = 0; i < max && !allAnswered(); ++i)
    {
        CHECK(T->armed, "a request waits and no timer runs");
        if (!T->armed) return;
        fire();
    }
    CHECK(allAnswered(), "a request is never answered");
    sym_reach("drained");
    sym_trace(nRsp);
}
// after whatever happened the client connects again by itself and serves the next request
void recover()
{
    for (int i = 0; i < 4 && L->st != fake::Link::connected; ++i)
    {
        if (L->st == fake::Link::connecting) { L->st = fake::Link::connected; fake::guarded([&] { L->event(LinkEvent::connected); }); break; }
        CHECK(T->armed, "a client without connection does not try again");
        fire();
    }
    CHECK(L->st == fake::Link::connected, "a client does not connect again");
    int const k = nRq++;
    Rq& q = rq[k];
    q.clientId = 1; q.tid = 0x1234; q.func = 6; q.addr = 9; q.start = 77; q.items = 0; q.bytes = 2; q.data[0] = 1; q.data[1] = 2;
    app::reactor::MsgStore<MsgModbusClientAduReq> m;
    m.getMsg().numItems = 1;
    auto& it = m.getMsg().item(0);
    it.clientId = 1; it.transactId = q.tid; it.func = ModbusFunction::presetSingleRegister; it.addr = 9; it.startItem = 77; it.numItems = 0; it.numBytes = 2; it.data[0] = 1; it.data[1] = 2;
    fake::guarded([&] { R->deliver(m.getMsg()); });
    for (int i = 0; i < 3 && cur < 0 && !q.answered; ++i) { CHECK(T->armed, "a request waits and no timer runs"); fire(); }
    CHECK(cur == k, "a request on a working connection is not sent");
    static uint8_t const f[12] = {0x12, 0x34, 0, 0, 0, 6, 9, 6, 0, 77, 2, 1};
    deliver(f, 12);
    CHECK(q.ok, "a matching response is reported");
    sym_reach("recovered");
}
void freshFrame(uint8_t* f, unsigned n) { sym_make(f, n, "frame"); }
}

// any history of requests, link events, received frames and timeouts
extern "C" void h_mbc_history()
{
    World& w = world();
    if (chooseBool("connectcanfail")) R->links[0].connectOk = connectOk;
    w.config();
    faultSend = true;
    static uint8_t frames[8][16];
    int const steps = THOROUGH ? 8 : 7;
    int nFrames = 0;
    for (int i = 0; i < steps; ++i)
    {
        switch (choose("event", 6))
        {
        case 0:
            if (nRq >= 2) { sym_end_path(); }
            request(nRq ? 6 : 3, false);
            break;
        case 1:
            if (L->st != fake::Link::connecting) sym_end_path();
            L->st = fake::Link::connected;
            fake::guarded([&] { L->event(LinkEvent::connected); });
            break;
        case 2:
        {
            if (L->st != fake::Link::connected || nFrames >= 3) sym_end_path();
            static unsigned const lens[] = {11, 12, 9, 5};
            unsigned const n = lens[choose("len", 4)];
            uint8_t* f = frames[nFrames++];
            freshFrame(f, n);
            if (n != 5) ASSUME(be(f + 4) == n - 6);
            deliver(f, n);
            break;
        }
        case 3:
            if (L->st == fake::Link::closed) sym_end_path();
            L->st = fake::Link::closed;          // a broken link closes itself before it reports
            fake::guarded([&] { L->event(LinkEvent::error); });
            break;
        case 4:
            if (!T->armed) sym_end_path();
            fire();
            break;
        case 5:
            if (L->st != fake::Link::connected) sym_end_path();
            status(chooseBool("closed") ? LinkResult::closed : LinkResult::error);
            break;
        }
    }
    R->links[0].connectOk = nullptr;
    faultSend = false;
    drain(14);
    recover();
}
// one exchange, every function, every response
namespace
{
void toConnected() { L->st = fake::Link::connected; L->event(LinkEvent::connected); }
void toSent() { for (int i = 0; i < 4 && cur < 0; ++i) { CHECK(T->armed, "a request waits and no timer runs"); fire(); } CHECK(cur >= 0, "a waiting request is not sent"); }
}
extern "C" void h_mbc_exchange()
{
    World& w = world();
    w.config();
    toConnected();
    static uint8_t const funcs[] = {1, 3, 4, 5, 6, 16};
    uint8_t const f = funcs[choose("func", 6)];
    if (f == 5)
    {
        // a coil is switched with FF00 or 0000
    }
    request(f, false);
    if (f == 5) { ASSUME(rq[0].data[1] == 0 && (rq[0].data[0] == 0 || rq[0].data[0] == 0xff)); }
    if (f == 5) { for (int i = 0; i < 3 && !rq[0].answered && cur < 0; ++i) if (T->armed) fire(); }
    else toSent();
    if (cur < 0) { drain(6); return; }
    static uint8_t fr[64];
    unsigned const n = choose("n", 34);
    if (n == 0) { drain(6); return; }
    freshFrame(fr, n);
    deliver(fr, n);
    drain(10);
}
// requests the protocol can not carry, functions outside the supported ones
extern "C" void h_mbc_invalid()
{
    World& w = world();
    w.config();
    toConnected();
    uint8_t const f = sym<uint8_t>("func");
    unsigned const k = choose("kind", 3);
    if (k == 0) { ASSUME(!((f >= 1 && f <= 6) || f == 16)); request(f, true); }
    else if (k == 1) { request(3, true); ASSUME(rq[0].addr > 247 || rq[0].items > 125); }
    else request(6, false, sym<uint8_t>("otherclient") % 3);
    if (k == 2 && rq[0].clientId != 1) CHECK(rq[0].answered, "a request for an unknown client is answered at once");
    request(6, false);
    faultSend = false;
    CHECK(!rq[1].answered, "a valid request is answered before it was sent");
    for (int i = 0; i < 8 && rq[1].sent == 0; ++i) { CHECK(T->armed, "a request waits and no timer runs"); fire(); }
    CHECK(rq[1].sent, "an invalid request blocks the ones behind it");
    if (k != 2) CHECK(rq[0].answered && !rq[0].sent, "an invalid request is sent");
    drain(10);
}
// 300 requests one after the other, each with the same end
extern "C" void h_mbc_many()
{
    World& w = world();
    w.config();
    toConnected();
    unsigned const how = choose("how", 6);
    uint64_t heap = 0;
    for (unsigned i = 0; i < 300; ++i)
    {
        nRq = 0; rq[0] = Rq{};
        recover();
        if (i == 100) heap = sym_live_heap();
        if (how == 0) continue;
        rq[0] = Rq{}; nRq = 0; cur = -1;
        Rq& q = rq[nRq++];
        q.clientId = 1; q.tid = i; q.func = 3; q.addr = 5; q.start = (uint16_t)i; q.items = 1; q.bytes = 0;
        app::reactor::MsgStore<MsgModbusClientAduReq> m;
        m.getMsg().numItems = 1;
        auto& it = m.getMsg().item(0);
        it.clientId = 1; it.transactId = q.tid; it.func = ModbusFunction::readHoldingRegisters; it.addr = 5; it.startItem = q.start; it.numItems = 1; it.numBytes = 0;
        fake::guarded([&] { R->deliver(m.getMsg()); });
        if (how == 1) { drain(8); continue; }
        toSent();
        if (how == 2) { uint8_t const f[9] = {(uint8_t)(i >> 8), (uint8_t)i, 0, 0, 0, 3, 5, 0x83, 2}; deliver(f, 9); }
        else if (how == 3) { uint8_t const f[9] = {(uint8_t)(i >> 8), (uint8_t)~i, 0, 0, 0, 3, 5, 0x83, 2}; deliver(f, 9); }
        else if (how == 4) status(LinkResult::closed);
        else { L->st = fake::Link::closed; fake::guarded([&] { L->event(LinkEvent::error); }); }
        drain(8);
    }
    CHECK(sym_live_heap() <= heap, "memory is lost with every request");
    sym_reach("many");
}
// the queue of waiting requests: 64 wait, more are refused at once, all answered in order
extern "C" void h_mbc_full()
{
    World& w = world();
    w.config();
    toConnected();
    for (int i = 0; i < 66; ++i)
    {
        Rq& q = rq[nRq++];
        q.clientId = 1; q.tid = 100 + i; q.func = 6; q.addr = 5; q.start = (uint16_t)(i * 3); q.items = 0; q.bytes = 2; q.data[0] = (uint8_t)i; q.data[1] = (uint8_t)(i ^ 0x55);
        app::reactor::MsgStore<MsgModbusClientAduReq> m;
        m.getMsg().numItems = 1;
        auto& it = m.getMsg().item(0);
        it.clientId = 1; it.transactId = q.tid; it.func = ModbusFunction::presetSingleRegister; it.addr = 5; it.startItem = q.start; it.numItems = 0; it.numBytes = 2;
        std::memcpy(it.data, q.data, 2);
        R->deliver(m.getMsg());
        CHECK(q.answered == (i >= 64), "exactly the requests beyond the 64 waiting ones are refused");
    }
    // answer some, let others time out, then let new ones in
    static uint8_t fr[12];
    for (int i = 0; i < 3; ++i)
    {
        toSent();
        int const k = cur;
        if (chooseBool("answer"))
        {
            uint8_t const f[12] = {0, (uint8_t)(100 + k), 0, 0, 0, 6, 5, 6, (uint8_t)(rq[k].start >> 8), (uint8_t)rq[k].start, rq[k].data[1], rq[k].data[0]};
            std::memcpy(fr, f, 12);
            deliver(fr, 12);
            CHECK(rq[k].ok, "a matching response is reported");
        }
        else { fire(); CHECK(rq[k].answered, "a timeout answers the request"); }
    }
    for (int i = 0; i < 3; ++i) { request(6, false); CHECK(!rq[nRq - 1].answered, "there is room again after requests were answered"); }
    drain(400);
    sym_reach("full");
}
// ------------------------------------------------------------------ framing
namespace
{
void matching(uint8_t* f, unsigned kind)
{
    Rq const& q = rq[cur];
    unsigned const n = kind == 0 ? 11 : 9;
    sym_make(f, n, "frame");
    ASSUME(be(f) == (q.tid & 0xffff) && be(f + 2) == 0 && be(f + 4) == n - 6 && f[6] == q.addr && f[7] == (kind == 0 ? q.func : q.func | 0x80) && (kind == 0 ? f[8] == 2 : f[8] != 0));
}
void pieces(uint8_t const* f, unsigned n, unsigned maxPieces)
{
    int const k0 = cur;
    unsigned pos = 0, k = 0;
    unsigned const idleAt = choose("spurious", 3);
    while (pos < n)
    {
        unsigned const left = n - pos;
        unsigned const take = ++k >= maxPieces ? left : 1 + choose("cut", left);
        if (k == idleAt) { status(LinkResult::na); CHECK(!rq[k0].answered, "a request is answered without data"); }
        deliver(f + pos, take);
        pos += take;
    }
    CHECK(rq[k0].ok, "a response that arrived in pieces is not reported");
    if (k > 3) sym_reach("many-pieces");
}
}
extern "C" void h_mbc_segments()
{
    World& w = world();
    w.config();
    toConnected();
    static uint8_t f1[16], f2[16];
    request(3, false);
    toSent();
    unsigned const kind = choose("kind", 2);
    matching(f1, kind);
    // an earlier attempt that timed out half way must not spoil the next response
    unsigned const off = choose("cutoff", 3);
    if (off)
    {
        unsigned const part = 1 + choose("part", 8);
        deliver(f1, part);
        if (off == 1) fire(); else status(LinkResult::closed);
        for (int i = 0; i < 4 && !rq[0].answered; ++i) fire();
        CHECK(rq[0].answered, "a timeout or the end of the connection answers the request");
        if (off == 2) { recover(); sym_reach("lost"); }
    }
    else pieces(f1, kind == 0 ? 11 : 9, THOROUGH ? 12 : 6);
    request(3, false);
    toSent();
    matching(f2, 0);
    pieces(f2, 11, THOROUGH ? 4 : 2);
    sym_reach("both");
}
// long responses in two or three pieces, cut anywhere
extern "C" void h_mbc_segments_long()
{
    World& w = world();
    w.config();
    toConnected();
    static uint8_t f1[300], f2[16];
    static uint8_t const counts[] = {58, 180, 250, 24, 122, 242};
    unsigned const nb = counts[choose("count", THOROUGH ? 6 : 3)], n = 9 + nb;
    request(3, false);
    toSent();
    Rq const& q = rq[cur];
    int const k0 = cur;
    sym_make(f1, n, "frame");
    ASSUME(be(f1) == (q.tid & 0xffff) && be(f1 + 2) == 0 && be(f1 + 4) == n - 6 && f1[6] == q.addr && f1[7] == 3 && f1[8] == nb);
    unsigned pos = 0;
    unsigned const np = 2 + choose("three", 2);
    for (unsigned k = 1; k < np; ++k)
    {
        // three pieces: one of them is shorter than the fixed part of a frame
        unsigned const lim = np == 3 && k == 1 ? 13 : 250;
        unsigned const cut = 1 + choose("cut", (n - 1 - pos) < lim ? n - 1 - pos : lim);
        deliver(f1 + pos, cut);
        CHECK(!rq[k0].answered, "an incomplete response ends the wait");
        pos += cut;
        if (pos + 1 >= n || (k == 1 && np == 3 && !THOROUGH && cut != 1 && cut != 7 && cut != 12)) break;
    }
    if (np == 2) status(LinkResult::na);
    deliver(f1 + pos, n - pos);
    CHECK(rq[k0].ok, "a response that arrived in pieces is not reported");
    request(3, false);
    toSent();
    matching(f2, 0);
    deliver(f2, 11);
    CHECK(rq[1].ok, "the response after a long one is not reported");
    sym_reach("long");
}
