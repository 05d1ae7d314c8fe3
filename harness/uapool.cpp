// The pools of OPC UA connections, channels and sessions near exhaustion, driven through their components.
#define FAKE_N 48
#include "fake.h"
#define CLOCK_IMPL
#include "clock.h"
#include "uacodec.h"
#include "UaTransport.hpp"
#include "UaTransportComponent.hpp"
#include "UaSecureChannel.hpp"
#include "UaSecureChannelComponent.hpp"
#include "UaService.hpp"
#include "UaServiceComponent.hpp"
#include "MsgUaTransportInitReq.hpp"
#include "MsgUaTransportConfigReq.hpp"
#include "MsgUaOpenSecureChannelReq.hpp"
#include "MsgUaCloseSecureChannelReq.hpp"
#include "MsgUaSecuredMessageReceiveInd.hpp"
#include "MsgUaConnectionReleaseInd.hpp"
#include "MsgUaEncodedMessageReceiveInd.hpp"
#include "MsgUaEncodedMessageSendReq.hpp"
#include "MsgStore.hpp"
#include <new>
using namespace app;
using namespace app::ua;
using fake::LinkEvent;
using app::reactor::LinkResult;

static unsigned rnd = 7;
extern "C" int rand() { return (int)(rnd = rnd * 1103515245u + 12345u) & 0x7fffffff; }

namespace
{
fake::Reactor* R;
unsigned const CAP = 32;
uint32_t le(uint8_t const* p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
void putLe(uint8_t* p, uint32_t v) { p[0] = (uint8_t)v; p[1] = (uint8_t)(v >> 8); p[2] = (uint8_t)(v >> 16); p[3] = (uint8_t)(v >> 24); }

// what a component sent last
int nOpen = 0, nOpened = 0, nRsp = 0;
uint32_t opnConn, openedCh, openedConn;
uint8_t data[4096]; unsigned len;
void onMsg(app::reactor::MsgInterface const& m)
{
    auto const id = m.getMsgId();
    if (id == MsgUaOpenSecureChannelReq::msgId()) { ++nOpen; opnConn = static_cast<MsgUaOpenSecureChannelReq const&>(m).connectionId; }
    else if (id == MsgUaOpenSecureChannelRsp::msgId())
    {
        auto const& r = static_cast<MsgUaOpenSecureChannelRsp const&>(m);
        ++nOpened; openedCh = r.secureChannelId; openedConn = r.connectionId;
    }
    else if (id == MsgUaEncodedMessageSendReq::msgId())
    {
        auto const& r = static_cast<MsgUaEncodedMessageSendReq const&>(m);
        ++nRsp; len = r.length;
        CHECK(len <= sizeof data, "a response is longer than the largest message");
        std::memcpy(data, r.data, len);
    }
}
template <class COMP> struct World
{
    fake::Reactor reactor;
    fake::Sender sender;
    COMP comp;
    World() : comp((sender.on = onMsg, sender), (R = &reactor, static_cast<app::reactor::ReactorInterface&>(reactor))) { fake::quiet(LogLevel::LI); }
};
template <class COMP> World<COMP>& world() { static char mem[sizeof(World<COMP>)] __attribute__((aligned(16))); return *new (mem) World<COMP>; }
template <class M> void tell() { app::reactor::MsgStore<M> i; R->deliver(i.getMsg()); }
unsigned some(unsigned n) { static unsigned const at[] = {0, 1, 14, 31}; unsigned const k = at[choose("which", 4)]; if (k >= n) sym_end_path(); return k; }

// ---- connections
struct Conn { fake::Link* link; fake::Timer* timer; uint32_t id; } conn[40];
unsigned nConn = 0;
int failAt = 0;
bool timerOk() { return failAt != 1; }
bool linkOk() { return failAt != 2; }
bool acceptOk() { return failAt != 3; }
void feed(Conn& c, uint8_t* p, unsigned n) { c.link->rx = p; c.link->rxLen = n; fake::guarded([&] { c.link->event(LinkEvent::data); }); c.link->rxLen = 0; }
void accept(int fail)
{
    int const lb = R->nLinksLive, tb = R->nTimersLive;
    bool liveT[fake::Reactor::N];
    for (int i = 0; i < fake::Reactor::N; ++i) liveT[i] = R->timers[i].live;
    failAt = fail;
    R->acceptors[0].last = nullptr;
    fake::guarded([&] { R->acceptors[0].event(); });
    failAt = 0;
    bool const room = nConn < CAP;
    if (fail || !room)
    {
        CHECK(R->nLinksLive == lb && R->nTimersLive == tb, "a connection is handed out although all are in use or it could not be made");
        sym_reach(room ? "failed" : "exhausted");
        return;
    }
    CHECK(R->nLinksLive == lb + 1 && R->acceptors[0].last, "a connection is refused although not all are in use");
    Conn c{R->acceptors[0].last, nullptr, 0};
    for (int i = 0; i < fake::Reactor::N; ++i) if (R->timers[i].live && !liveT[i]) c.timer = &R->timers[i];
    CHECK(c.timer != nullptr, "a connection is refused although not all are in use");
    static uint8_t h[32], o[13];
    std::memset(h, 0, 32); std::memcpy(h, "HELF", 4); putLe(h + 4, 32); putLe(h + 28, 0xffffffffu);
    feed(c, h, 32);
    std::memset(o, 0, 13); std::memcpy(o, "OPNF", 4); putLe(o + 4, 13);
    int const n = nOpen;
    feed(c, o, 13);
    CHECK(nOpen == n + 1, "a connection that was handed out does not work");
    c.id = opnConn;
    for (unsigned i = 0; i < nConn; ++i) CHECK(conn[i].id != c.id && conn[i].link->live && conn[i].link->st == fake::Link::connected, "a connection in use is handed out");
    conn[nConn++] = c;
    sym_reach("allocated");
}
void endConn(unsigned i, unsigned how)
{
    Conn const c = conn[i];
    if (how == 0) { c.link->rxStatus = LinkResult::closed; fake::guarded([&] { c.link->event(LinkEvent::data); }); }
    else if (how == 1) fake::guarded([&] { c.timer->fire(); });
    else { app::reactor::MsgStore<MsgUaConnectionReleaseReq> st; st.getMsg().connectionId = c.id; fake::guarded([&] { R->deliver(st.getMsg()); }); }
    conn[i] = conn[--nConn];
    CHECK(R->nLinksLive == (int)nConn && R->nTimersLive == (int)nConn, "an ended connection keeps its link or timer");
    sym_reach("released");
}
// ---- channels
struct Chan { uint32_t conn, ch; } chan[40];
unsigned nChan = 0;
uint32_t nextConn = 1;
void openChan(unsigned cut)
{
    Gen g; g.free = false; g.concrete = true;
    UaSecurityHeader sh; gen(g, sh); UaSequenceHeader q; gen(g, q); UaOpenSecureChannelReqCont req; gen(g, req);
    app::reactor::MsgStore<MsgUaOpenSecureChannelReq> st;
    auto& m = st.getMsg();
    m.connectionId = nextConn; m.secureChannelId = 0; m.chunkType = UaChunkType::fromUint8('F'); m.length = g.ref.n - cut;
    std::memcpy(m.data, g.ref.b, g.ref.n);
    int const n = nOpened;
    fake::guarded([&] { R->deliver(m); });
    ++nextConn;
    bool const room = nChan < CAP;
    if (cut || !room) { CHECK(nOpened == n, "a channel is handed out although all are in use or it could not be made"); sym_reach(room ? "failed" : "exhausted"); return; }
    CHECK(nOpened == n + 1, "a channel is refused although not all are in use");
    for (unsigned i = 0; i < nChan; ++i) CHECK(chan[i].ch != openedCh, "a channel in use is handed out");
    chan[nChan++] = {nextConn - 1, openedCh};
    sym_reach("allocated");
}
void endChan(unsigned i, unsigned how)
{
    Chan const c = chan[i];
    if (how == 0)
    {
        app::reactor::MsgStore<MsgUaConnectionReleaseInd> st;
        st.getMsg().connectionId = c.conn; st.getMsg().secureChannelId = c.ch;
        fake::guarded([&] { R->deliver(st.getMsg()); });
    }
    else
    {
        app::reactor::MsgStore<MsgUaSecuredMessageReceiveInd> st;      // malformed: too short
        auto& m = st.getMsg();
        m.connectionId = c.conn; m.secureChannelId = c.ch; m.chunkType = UaChunkType::fromUint8('F'); m.length = 3;
        std::memset(m.data, 0, 3);
        fake::guarded([&] { R->deliver(m); });
    }
    chan[i] = chan[--nChan];
    sym_reach("released");
}
// ---- sessions
struct Ses { uint32_t id, token; } ses[40];
unsigned nSes = 0;
uint32_t number(unsigned& at)
{
    uint32_t r = 0;
    CHECK(at + 7 <= len, "a response is cut off");
    if (data[at] == 0) { r = data[at + 1]; at += 2; }
    else if (data[at] == 1) { r = data[at + 2] | data[at + 3] << 8; at += 4; }
    else { r = le(data + at + 3); at += 7; }
    return r;
}
void service(unsigned id, uint32_t token, Gen& g, unsigned cut)
{
    Bytes b; b.put(1); b.put(0); b.le(id, 2); b.put(2); b.le(0, 2); b.le(token, 4);
    std::memcpy(b.b + b.n, g.ref.b, g.ref.n); b.n += g.ref.n;
    app::reactor::MsgStore<MsgUaEncodedMessageReceiveInd> st;
    auto& m = st.getMsg();
    m.hdr = UaEncodedMessageHdr{1, 2, 3, invalidSuid}; m.length = b.n - cut;
    std::memcpy(m.data, b.b, b.n);
    fake::guarded([&] { R->deliver(m); });
}
void reqHdr(Gen& g) { UaRequestHeader h; genAll(g, h.timestamp, h.requestHandle, h.returnDignostics, h.auditEntityId, h.timeoutHint, h.additionalHeader); }
void openSes(unsigned cut)
{
    Gen g; g.free = false; g.concrete = true;
    reqHdr(g);
    UaCreateSessionReq q;
    genAll(g, q.clientDescription, q.serverUri, q.endpointUrl, q.sessionName, q.clientNonce, q.clientCertificate, q.requestedSessionTimeout, q.maxResponseMessageSize);
    int const n = nRsp;
    service(461, 0, g, cut);
    bool const room = nSes < CAP;
    if (cut) { CHECK(nRsp == n, "a session is handed out although it could not be made"); sym_reach("failed"); return; }
    bool const created = nRsp == n + 1 && len > 52 && data[2] == (464 & 255) && data[3] == 464 >> 8 && le(data + 16) == 0;
    if (!room) { CHECK(!created, "a session is handed out although all are in use"); sym_reach("exhausted"); return; }
    CHECK(created, "a session is refused although not all are in use");
    unsigned at = 4 + 16 + 1;                        // type id, header up to the string table, additional header
    { uint32_t const l = le(data + at); at += 4 + (l == 0xffffffffu ? 0 : l); } at += 3;
    uint32_t const id = number(at), token = number(at);
    for (unsigned i = 0; i < nSes; ++i) CHECK(ses[i].id != id && ses[i].token != token, "a session in use is handed out");
    ses[nSes++] = {id, token};
    sym_reach("allocated");
}
void endSes(unsigned i)
{
    Ses const s = ses[i];
    Gen g; g.free = false; g.concrete = true;
    reqHdr(g); Boolean b; gen(g, b);
    int const n = nRsp;
    service(473, s.token, g, 0);
    CHECK(nRsp == n + 1, "a session can not be given back");
    ses[i] = ses[--nSes];
    sym_reach("released");
}
int steps() { return THOROUGH ? 5 : 4; }
}
extern "C" void h_pool_uaconn()
{
    world<ua::transport::UaTransportComponent>();
    tell<MsgUaTransportInitReq>();
    app::reactor::MsgStore<MsgUaTransportConfigReq> c;
    c.getMsg().addr = {app::reactor::LinkAddr::Type::ipv4, {127, 0, 0, 1, 2, 3}};
    R->deliver(c.getMsg());
    R->timerOk = timerOk; R->linkOk = linkOk; R->acceptors[0].acceptOk = acceptOk;
    while (nConn < CAP - 1) accept(0);
    for (int i = 0; i < steps(); ++i)
    {
        unsigned const k = choose("event", 3);
        if (k == 0) accept(0);
        else if (k == 1) accept(1 + (int)choose("fail", 3));
        else endConn(some(nConn), choose("how", 3));
    }
    while (nConn < CAP) accept(0);
    accept(0);
}
extern "C" void h_pool_uachan()
{
    world<ua::securechannel::UaSecureChannelComponent>();
    tell<MsgUaSecureChannelInitReq>(); tell<MsgUaSecureChannelConfigReq>();
    while (nChan < CAP - 1) openChan(0);
    for (int i = 0; i < steps(); ++i)
    {
        unsigned const k = choose("event", 3);
        if (k == 0) openChan(0);
        else if (k == 1) openChan(1 + choose("cut", 3) * 17);
        else endChan(some(nChan), choose("how", 2));
    }
    while (nChan < CAP) openChan(0);
    openChan(0);
}
extern "C" void h_pool_uases()
{
    world<ua::service::UaServiceComponent>();
    tell<MsgUaServiceInitReq>(); tell<MsgUaServiceConfigReq>();
    while (nSes < CAP - 1) openSes(0);
    for (int i = 0; i < steps(); ++i)
    {
        unsigned const k = choose("event", 3);
        if (k == 0) openSes(0);
        else if (k == 1) openSes(1 + choose("cut", 3) * 17);
        else endSes(some(nSes));
    }
    while (nSes < CAP) openSes(0);
    openSes(0);
}
