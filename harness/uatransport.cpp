// OPC UA TCP transport, driven through its component.
#include "fake.h"
#include "UaTransport.hpp"
#include "UaTransportComponent.hpp"
#include "MsgUaTransportInitReq.hpp"
#include "MsgUaTransportConfigReq.hpp"
#include "MsgUaTransportReleaseReq.hpp"
#include "MsgUaOpenSecureChannelReq.hpp"
#include "MsgUaCloseSecureChannelReq.hpp"
#include "MsgUaSecuredMessageReceiveInd.hpp"
#include "MsgUaConnectionReleaseInd.hpp"
#include "MsgStore.hpp"
#include <new>
using namespace app;
using fake::LinkEvent;
using app::reactor::LinkResult;

// limits in a Hello or Acknowledge: both buffers, the message size and the number of chunks (0: no limit)
static bool sensible(uint8_t const* w)
{
    auto le = [w](unsigned o) { return (uint32_t)w[o] | (uint32_t)w[o + 1] << 8 | (uint32_t)w[o + 2] << 16 | (uint32_t)w[o + 3] << 24; };
    uint32_t const r = le(12), s = le(16), m = le(20), c = le(24);
    return r >= 8192 && r <= (1u << 20) && s >= 8192 && s <= (1u << 20) && (m == 0 || (m >= 8192 && m <= (1u << 30))) && c <= (1u << 16);
}
namespace
{
fake::Reactor* R;
uint32_t le(uint8_t const* p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
void putLe(uint8_t* p, uint32_t v) { p[0] = (uint8_t)v; p[1] = (uint8_t)(v >> 8); p[2] = (uint8_t)(v >> 16); p[3] = (uint8_t)(v >> 24); }
void putType(uint8_t* p, char const* t) { std::memcpy(p, t, 3); }

struct Conn
{
    fake::Link* link = nullptr; fake::Timer* timer = nullptr;
    bool live = false, open = false, idKnown = false, assoc = false;
    uint32_t id = 0, ch = 0;
};
Conn conn[4];
int nConn = 0;

// what the secure channel layer gets
enum Kind { none, opn, msg, clo };
struct Fwd { int n = 0; Kind kind = none; uint32_t id = 0, ch = 0, len = 0; uint8_t chunk = 0; uint8_t data[4096]; } fwd;
struct Rel { int n = 0; uint32_t id[4], ch[4]; } rel;
template <class M> void got(Kind k, app::reactor::MsgInterface const& mi)
{
    M const& m = static_cast<M const&>(mi);
    ++fwd.n; fwd.kind = k; fwd.id = m.connectionId; fwd.ch = m.secureChannelId; fwd.len = m.length; fwd.chunk = (uint8_t)m.chunkType.val;
    CHECK(m.length <= sizeof(fwd.data), "a forwarded message is longer than the largest message");
    std::memcpy(fwd.data, m.data, m.length);
}
void onMsg(app::reactor::MsgInterface const& m)
{
    auto const id = m.getMsgId();
    if (id == MsgUaOpenSecureChannelReq::msgId()) got<MsgUaOpenSecureChannelReq>(opn, m);
    else if (id == MsgUaSecuredMessageReceiveInd::msgId()) got<MsgUaSecuredMessageReceiveInd>(msg, m);
    else if (id == MsgUaCloseSecureChannelReq::msgId()) got<MsgUaCloseSecureChannelReq>(clo, m);
    else if (id == MsgUaConnectionReleaseInd::msgId())
    {
        auto const& r = static_cast<MsgUaConnectionReleaseInd const&>(m);
        CHECK(rel.n < 4, "a connection is reported as ended again and again");
        rel.id[rel.n] = r.connectionId; rel.ch[rel.n] = r.secureChannelId; ++rel.n;
    }
}
bool faultSend = false;
bool sendOk(fake::Link&) { if (!faultSend) return true; return !chooseBool("sendfail"); }
int failAt = 0;                    // 1: no timer, 2: no link, 3: accept
bool timerOk() { return failAt != 1; }
bool linkOk() { return failAt != 2; }
bool acceptOk() { return failAt != 3; }
struct World
{
    fake::Reactor reactor;
    fake::Sender sender;
    ua::transport::UaTransportComponent comp;
    World() : comp((sender.on = onMsg, sender), (R = &reactor, static_cast<app::reactor::ReactorInterface&>(reactor)))
    {
        fake::quiet(LogLevel::LI);
        app::reactor::MsgStore<MsgUaTransportInitReq> i;
        reactor.deliver(i.getMsg());
        app::reactor::MsgStore<MsgUaTransportConfigReq> c;
        c.getMsg().addr = {app::reactor::LinkAddr::Type::ipv4, {127, 0, 0, 1, 2, 3}};
        reactor.deliver(c.getMsg());
        CHECK(reactor.acceptors[0].live && reactor.acceptors[0].listening, "a configured server listens");
        for (auto& l : reactor.links) l.sendOk = sendOk;
        reactor.timerOk = timerOk; reactor.linkOk = linkOk; reactor.acceptors[0].acceptOk = acceptOk;
    }
};
World& world() { static char mem[sizeof(World)] __attribute__((aligned(16))); return *new (mem) World; }

int accept(int fail)
{
    failAt = fail;
    int const lb = R->nLinksLive, tb = R->nTimersLive;
    bool liveT[fake::Reactor::N];
    for (int i = 0; i < fake::Reactor::N; ++i) liveT[i] = R->timers[i].live;
    fake::guarded([&] { R->acceptors[0].event(); });
    failAt = 0;
    if (fail)
    {
        CHECK(R->nLinksLive == lb && R->nTimersLive == tb, "a connection that can not be accepted leaves its link or timer behind");
        sym_reach("accept-failed");
        return -1;
    }
    CHECK(R->nLinksLive == lb + 1, "a connection is not accepted although the server has room");
    Conn& c = conn[nConn++];
    c = Conn{};
    c.live = true; c.link = R->acceptors[0].last;
    for (int i = 0; i < fake::Reactor::N; ++i) if (R->timers[i].live && !liveT[i]) c.timer = &R->timers[i];
    CHECK(c.timer && c.timer->armed, "an accepted connection is not supervised by a timer");
    return nConn - 1;
}
struct Before { int fwd, rel, sends[4]; };
Before before() { Before b{fwd.n, rel.n, {}}; for (int i = 0; i < nConn; ++i) b.sends[i] = conn[i].link->nSend; return b; }
bool usesLink(int i, int k) { return conn[i].link == conn[k].link; }
enum How { stays, ends, mayEnd, released };
// what an event did to connection i; no other connection may be affected
void settle(int i, Before const& b, How how)
{
    Conn& c = conn[i];
    for (int k = 0; k < nConn; ++k) if (k != i && conn[k].live)
    {
        CHECK(conn[k].link->live && conn[k].link->st == fake::Link::connected && conn[k].timer->live && conn[k].timer->armed, "an event on one connection ends another one");
        CHECK(conn[k].link->nSend == b.sends[k], "an event on one connection makes another one send");
    }
    if (!c.live) return;
    bool const live = c.link->live && c.link->st == fake::Link::connected && c.timer->live;
    if (how == ends || how == released) CHECK(!c.link->live && !c.timer->live, "a connection that ended does not release its link and timer");
    else if (how == stays) CHECK(live && c.timer->armed, "a connection is given up without reason or is not supervised any more");
    else if (live) CHECK(c.timer->armed, "a connection is not supervised any more");
    int const r = rel.n - b.rel;
    if (!live && how != released)
    {
        CHECK(r == (c.assoc ? 1 : 0), "the secure channel of a connection that ended is told about it exactly once");
        if (c.assoc) { CHECK(rel.ch[b.rel] == c.ch && (!c.idKnown || rel.id[b.rel] == c.id), "the end of a connection is reported with its own numbers"); sym_reach("reported"); }
    }
    else if (live) CHECK(r == 0, "a live connection is reported as ended");
    if (!live) { c.live = c.open = c.assoc = false; }
    rel.n = 0;
}
void feed(int i, uint8_t const* p, unsigned n)
{
    Conn& c = conn[i];
    c.link->rx = p; c.link->rxLen = n; c.link->rxStatus = LinkResult::ok;
    fake::guarded([&] { c.link->event(LinkEvent::data); });
    c.link->rxLen = 0; c.link->rxStatus = LinkResult::na;
}
// one complete message of n bytes arrives (its last piece is p[from..n))
void complete(int i, uint8_t const* p, unsigned n, unsigned from = 0, bool mayRefuse = false)
{
    Conn& c = conn[i];
    Before const b = before();
    int const starts = c.timer->nStart;
    bool const hel = std::memcmp(p, "HEL", 3) == 0;
    feed(i, p + from, n - from);
    int const sent = c.link->nSend - b.sends[i];
    if (!c.open)
    {
        CHECK(fwd.n == b.fwd, "something is forwarded before the connection is open");
        bool good = hel && n >= 32;
        if (good) { uint32_t const l = le(p + 28); good = l == n - 32 || l == 0xffffffffu; mayRefuse = mayRefuse || (l == 0xffffffffu && n != 32); }
        if (good && !mayRefuse) CHECK(sent == 1 || faultSend, "a Hello is not acknowledged");
        if (!good) CHECK(sent == 0 || (hel && n >= 32), "a message that is not a Hello is acknowledged");
        if (sent)
        {
            uint8_t const* w = c.link->tx;
            CHECK(sent == 1 && c.link->txLen == 28 && !std::memcmp(w, "ACKF", 4) && le(w + 4) == 28 && le(w + 8) == 0, "a Hello is answered with one well-formed Acknowledge");
            CHECK(sensible(w), "the limits an Acknowledge announces are those of OPC UA");
            c.open = true;
            settle(i, b, stays);
            CHECK(c.timer->nStart > starts, "the supervision of a connection starts anew when it opens");
            sym_reach("acknowledged");
        }
        else { settle(i, b, ends); sym_reach("not-hello"); }
        return;
    }
    CHECK(sent == 0, "something is sent before the secure channel answered");
    Kind k = none;
    if (n >= 12)
    {
        if (!std::memcmp(p, "OPN", 3)) k = opn;
        if (!std::memcmp(p, "MSG", 3)) k = msg;
        if (!std::memcmp(p, "CLO", 3)) k = clo;
        if ((k == msg || k == clo) && !(c.assoc && c.ch == le(p + 8))) k = none;
    }
    if (k == none || (mayRefuse && fwd.n == b.fwd))
    {
        CHECK(fwd.n == b.fwd, "a message that does not belong to the secure channel of its connection is forwarded");
        settle(i, b, ends);
        sym_reach("refused");
        return;
    }
    CHECK(fwd.n == b.fwd + 1, "a complete message is forwarded once");
    CHECK(fwd.kind == k && fwd.ch == le(p + 8), "a message is forwarded as what it is");
    if (c.idKnown) CHECK(fwd.id == c.id, "a connection keeps its number");
    for (int o = 0; o < nConn; ++o) if (o != i && conn[o].live && conn[o].idKnown) CHECK(conn[o].id != fwd.id, "two connections share a number");
    c.idKnown = true; c.id = fwd.id;
    uint8_t const f = p[3];
    CHECK(UaChunkType{static_cast<UaChunkTypeEnum>(fwd.chunk)}.toUint8() == (f == 'C' || f == 'F' || f == 'A' ? f : 0), "a message keeps its chunk type");
    CHECK(fwd.len == n - 12, "a message is forwarded with all of its content and nothing else");
    for (unsigned x = 0; x < n - 12; ++x) CHECK(fwd.data[x] == p[12 + x], "a message is forwarded unchanged");
    settle(i, b, stays);
    CHECK(c.timer->nStart > starts, "a received message starts the supervision anew");
    sym_reach("forwarded");
}
bool varyChunk = false;
void mkHello(uint8_t* w, unsigned url)
{
    sym_make(w, 32 + url, "hello");
    putType(w, "HEL"); putLe(w + 4, 32 + url); putLe(w + 28, url);
}
void mkMsg(uint8_t* w, unsigned n, char const* t) { sym_make(w, n, "message"); putType(w, t); if (!varyChunk) w[3] = 'F'; putLe(w + 4, n); }
uint8_t buf[12][4400];
int nb = 0;
uint8_t* fresh() { return buf[nb++]; }

// the secure channel layer answers: kind opn/msg/clo
template <class M> void out(int i, Kind k, uint32_t id, uint32_t ch, unsigned len)
{
    static char const* const names[] = {"", "OPN", "MSG", "CLO"};
    Conn& c = conn[i];
    app::reactor::MsgStore<M> st;
    M& m = st.getMsg();
    m.connectionId = id; m.secureChannelId = ch; m.length = len;
    unsigned const ct = varyChunk ? choose("chunk", 3) : 0;
    m.chunkType = UaChunkType::fromUint8((uint8_t)"FCA"[ct]);
    if (len) sym_make(m.data, len, "payload");
    Before const b = before();
    bool const mine = c.live && c.open && id == c.id;
    bool const wasAssoc = c.assoc; uint32_t const oldCh = c.ch;
    fake::guarded([&] { R->deliver(m); });
    CHECK(fwd.n == b.fwd, "an answer is forwarded back");
    int const sent = c.link->nSend - b.sends[i];
    if (!mine)
    {
        if (c.live || !c.link->live) CHECK(sent == 0, "an answer to another connection is sent");
        if (k == opn && id == c.id && c.idKnown)
        {
            CHECK(rel.n - b.rel == 1 && rel.ch[b.rel] == ch && rel.id[b.rel] == id, "a channel opened for a connection that is gone is released");
            sym_reach("orphan");
        }
        rel.n = b.rel;
        settle(i, b, stays);
        return;
    }
    if (k == opn)
    {
        if (wasAssoc && oldCh != ch)
        {
            CHECK(rel.n > b.rel && rel.ch[b.rel] == oldCh && rel.id[b.rel] == id, "a second channel on a connection replaces the first one");
            for (int x = b.rel + 1; x < rel.n; ++x) { rel.id[x - 1] = rel.id[x]; rel.ch[x - 1] = rel.ch[x]; }
            --rel.n;
            sym_reach("replaced");
        }
        c.assoc = true; c.ch = ch;
    }
    else if (!(c.assoc && c.ch == ch))
    {
        CHECK(sent == 0, "a message of another secure channel is sent");
        settle(i, b, mayEnd);
        sym_reach("foreign");
        return;
    }
    if (!sent)
    {
        CHECK(faultSend, "an answer is not sent");
        settle(i, b, ends);
        sym_reach("send-failed");
        return;
    }
    uint8_t const* w = c.link->tx;
    CHECK(sent == 1 && c.link->txLen == len + 12, "an answer is sent once, with all of its content");
    CHECK(!std::memcmp(w, names[k], 3) && w[3] == (uint8_t)"FCA"[ct] && le(w + 4) == len + 12 && le(w + 8) == ch, "an answer is sent with a correct header");
    for (unsigned x = 0; x < len; ++x) CHECK(w[12 + x] == m.data[x], "an answer is sent unchanged");
    settle(i, b, stays);
    sym_reach("sent");
}
void answer(int i, Kind k, uint32_t id, uint32_t ch, unsigned len)
{
    if (k == opn) out<MsgUaOpenSecureChannelRsp>(i, k, id, ch, len);
    else if (k == msg) out<MsgUaSecuredMessageSendReq>(i, k, id, ch, len);
    else out<MsgUaCloseSecureChannelRsp>(i, k, id, ch, len);
}
void releaseReq(int i, uint32_t id)
{
    app::reactor::MsgStore<MsgUaConnectionReleaseReq> st;
    st.getMsg().connectionId = id;
    Before const b = before();
    bool const mine = conn[i].open && conn[i].id == id;
    fake::guarded([&] { R->deliver(st.getMsg()); });
    settle(i, b, mine ? released : stays);
    sym_reach("released");
}
void fire(int i)
{
    Before const b = before();
    fake::guarded([&] { conn[i].timer->fire(); });
    CHECK(conn[i].link->nSend == b.sends[i] && fwd.n == b.fwd, "a timeout sends something");
    settle(i, b, ends);
    sym_reach("timeout");
}
void end(int i, int st)
{
    Before const b = before();
    conn[i].link->rxStatus = st;
    fake::guarded([&] { conn[i].link->event(LinkEvent::data); });
    CHECK(fwd.n == b.fwd, "the end of a connection is forwarded as a message");
    settle(i, b, ends);
    sym_reach("ended");
}
void hello(int i) { uint8_t* w = fresh(); mkHello(w, 0); complete(i, w, 32); }
}

namespace
{
// anything happens, steps times
void events(int steps)
{
    faultSend = true;
    for (int s = 0; s < steps; ++s)
    {
        int const c = nConn == 1 ? 0 : (int)choose("conn", nConn);
        switch (choose("event", 7))
        {
        case 0:
            if (nConn >= 2) sym_end_path();
            accept((int)choose("acceptfail", 4));
            break;
        case 1:
        {
            if (!conn[c].live) sym_end_path();
            uint8_t* w = fresh();
            mkHello(w, 2);
            complete(c, w, 34);
            break;
        }
        case 2:
        {
            if (!conn[c].live) sym_end_path();
            uint8_t* w = fresh();
            sym_make(w, 14, "message"); putLe(w + 4, 14); w[3] = 'F';
            unsigned const t = choose("type", 4);
            if (t < 3) putType(w, t == 0 ? "OPN" : t == 1 ? "MSG" : "CLO");
            else w[0] = (uint8_t)"XRE"[choose("other", 3)];
            complete(c, w, 14);
            break;
        }
        case 3:
        {
            if (!conn[c].idKnown) sym_end_path();
            Kind const k = static_cast<Kind>(1 + choose("answer", 3));
            uint32_t ch = sym<uint32_t>("channel");
            uint32_t id = conn[c].id;
            if (chooseBool("wrongconn"))
            {
                id = sym<uint32_t>("connid");
                for (int i = 0; i < nConn; ++i) ASSUME(!conn[i].live || !conn[i].idKnown || id != conn[i].id);
                // a number not handed out, or one that does not exist
                ASSUME(id == 0 || id > 32 || (id > 8 && id <= 10));
            }
            answer(c, k, id, ch, 3);
            break;
        }
        case 4:
            if (!conn[c].idKnown) sym_end_path();
            releaseReq(c, conn[c].id);
            break;
        case 5:
            if (!conn[c].live || !conn[c].timer->armed) sym_end_path();
            fire(c);
            break;
        case 6:
            if (!conn[c].live) sym_end_path();
            end(c, chooseBool("closed") ? LinkResult::closed : LinkResult::error);
            break;
        }
    }
}
}
extern "C" void h_uat_history()
{
    world();
    accept(0);
    bool const warm = chooseBool("warm");
    if (warm)
    {
        hello(0);
        uint8_t* w = fresh(); mkMsg(w, 12, "OPN"); complete(0, w, 12);
        if (chooseBool("opened")) answer(0, opn, conn[0].id, sym<uint32_t>("channel"), 0);
    }
    events(THOROUGH ? 5 : 4);
    sym_trace(fwd.n);
}
// a connection is not affected by what an earlier one with its number did, however that one ended
extern "C" void h_uat_second()
{
    world();
    accept(0);
    unsigned const life = choose("life", 5);
    if (life)
    {
        hello(0);
        if (life > 1) { uint8_t* w = fresh(); mkMsg(w, 12, "OPN"); complete(0, w, 12); }
        if (life > 2) answer(0, opn, conn[0].id, sym<uint32_t>("channel"), 0);
        if (life > 3) { uint8_t* w = fresh(); mkMsg(w, 13, "MSG"); putLe(w + 8, conn[0].ch); Before const b = before(); feed(0, w, 9); settle(0, b, stays); }
    }
    switch (choose("way", 3))
    {
    case 0: end(0, LinkResult::closed); break;
    case 1: fire(0); break;
    default: if (!conn[0].idKnown) sym_end_path(); releaseReq(0, conn[0].id); break;
    }
    for (int i = 0; i < 31; ++i) { nConn = 0; accept(0); end(0, LinkResult::closed); }
    nConn = 0;
    accept(0);
    if (chooseBool("warm")) hello(0);
    events(THOROUGH ? 3 : 2);
    sym_reach("second");
}
// a Hello with a long address, at once or in two pieces, with all messages logged
extern "C" void h_uat_hello()
{
    world();
    fake::quiet(LogLevel::LD);
    accept(0);
    static unsigned const ls[] = {0, 1, 100, 127, 128, 255, 256, 990, 1024, 2000, 3000, 3960};
    unsigned const url = ls[choose("url", 12)];
    uint8_t* w = fresh();
    mkHello(w, 0);
    putLe(w + 4, 32 + url); putLe(w + 28, url);
    for (unsigned i = 0; i < url; ++i) w[32 + i] = (uint8_t)('A' + i % 26);
    unsigned const cut = choose("cut", 4);
    unsigned const at = cut == 0 ? 0 : cut == 1 ? 31 : cut == 2 ? 32 + url / 2 : 31 + url;
    if (at && at < 32 + url) { Before const b = before(); feed(0, w, at); settle(0, b, stays); complete(0, w, 32 + url, at); }
    else complete(0, w, 32 + url);
    uint8_t* v = fresh(); mkMsg(v, 13, "OPN"); complete(0, v, 13);
    sym_reach("long");
}
// messages of every size, and arbitrary bytes
extern "C" void h_uat_sizes()
{
    world();
    accept(0);
    hello(0);
    unsigned const n = THOROUGH && chooseBool("small") ? 12 + choose("len", 256)
        : std::initializer_list<unsigned>{12, 13, 40, 127, 128, 255, 256, 1023, 1024, 1025, 1036, 1500, 2048, 4000, 4059, 4060, 4061, 4071, 4072, 4073, 4083, 4084, 4085, 4095, 4096}.begin()[choose("size", 25)];
    uint8_t* w = fresh();
    mkMsg(w, n, "OPN");
    complete(0, w, n, 0, n > 4000);
    if (!conn[0].live) return;
    answer(0, opn, conn[0].id, 7, 3);
    w = fresh();
    mkMsg(w, n, chooseBool("clo") ? "CLO" : "MSG"); putLe(w + 8, 7);
    complete(0, w, n, 0, n > 4000);
    sym_reach("second");
}
extern "C" void h_uat_send()
{
    varyChunk = true;
    world();
    accept(0);
    hello(0);
    uint8_t* w = fresh();
    mkMsg(w, 12, "OPN");
    complete(0, w, 12);
    unsigned const lim = reactor::maxMsgSize - sizeof(MsgUaSecuredMessageSendReq);
    static unsigned const ls[] = {0, 1, 2, 11, 12, 13, 100, 127, 128, 255, 256, 257, 1012, 1024, 4000};
    unsigned const x = choose("len", 18);
    unsigned const len = x < 15 ? ls[x] : lim - (x - 15);
    Kind const k = static_cast<Kind>(1 + choose("answer", 3));
    if (k != opn) answer(0, opn, conn[0].id, 9, 3);
    answer(0, k, conn[0].id, 9, len);
}
extern "C" void h_uat_junk()
{
    world();
    accept(0);
    bool const open = chooseBool("open");
    if (open)
    {
        hello(0);
        uint8_t* w = fresh(); mkMsg(w, 12, "OPN"); complete(0, w, 12);
        answer(0, opn, conn[0].id, 5, 0);
    }
    unsigned const n = 1 + choose("n", open ? (THOROUGH ? 24 : 16) : (THOROUGH ? 44 : 36));
    uint8_t* w = fresh();
    sym_make(w, n, "junk");
    if (n < 8 || le(w + 4) > n)
    {
        Before const b = before();
        feed(0, w, n);
        CHECK(fwd.n == b.fwd && conn[0].link->nSend == b.sends[0], "an incomplete message is handled");
        // a message that can not be received may be refused as soon as it is announced
        if (n >= 8 && le(w + 4) > 4000) settle(0, b, mayEnd); else settle(0, b, stays);
        sym_reach("incomplete");
    }
    else if (le(w + 4) < n)
    {
        Before const b = before();
        feed(0, w, n);
        CHECK(fwd.n == b.fwd && conn[0].link->nSend == b.sends[0], "a message of the wrong size is handled");
        settle(0, b, ends);
        sym_reach("wrong-size");
    }
    else complete(0, w, n);
}
// however connections end, the server goes on accepting
extern "C" void h_uat_reuse()
{
    world();
    unsigned const kind = choose("kind", 9);
    static uint8_t h[32], o[14];
    std::memcpy(h, "HELF", 4); putLe(h + 4, 32); putLe(h + 8, 0); putLe(h + 28, 0xffffffffu);
    std::memcpy(o, "OPNF", 4); putLe(o + 4, 14); putLe(o + 8, 0);
    uint64_t heap = 0;
    for (int i = 0; i < 300; ++i)
    {
        nConn = 0; rel.n = 0; faultSend = false;
        if (i == 150) heap = sym_live_heap();
        if (kind >= 6) { accept((int)kind - 5); if (i % 30 != 29) continue; }
        accept(0);
        if (kind == 1) { end(0, LinkResult::closed); }
        else if (kind == 2) { o[0] = 'X'; complete(0, o, 14); o[0] = 'O'; }
        else
        {
            complete(0, h, 32);
            complete(0, o, 14);
            app::reactor::MsgStore<MsgUaOpenSecureChannelRsp> st;
            auto& m = st.getMsg();
            m.connectionId = conn[0].id; m.secureChannelId = 3; m.length = 0; m.chunkType = {UaChunkType::final};
            bool const fail = kind == 3;
            conn[0].assoc = true; conn[0].ch = 3;
            Before const b = before();
            if (fail) conn[0].link->sendOk = [](fake::Link&) { return false; };
            fake::guarded([&] { R->deliver(m); });
            if (fail) { settle(0, b, ends); for (auto& l : R->links) l.sendOk = sendOk; }
            else
            {
                CHECK(conn[0].link->nSend == b.sends[0] + 1, "a channel is not confirmed");
                if (kind == 4) releaseReq(0, conn[0].id);
                else if (kind == 5) fire(0);
                else if (kind == 0) { o[0] = 'X'; complete(0, o, 14); o[0] = 'O'; }
                else end(0, LinkResult::error);
            }
        }
        CHECK(R->nLinksLive == 0 && R->nTimersLive == 0, "an ended connection keeps its link or timer");
    }
    CHECK(sym_live_heap() <= heap, "connections that ended take up memory");
    sym_reach("reused");
}
// ------------------------------------------------------------------ framing
namespace
{
void inPieces(int i, uint8_t const* w, unsigned n, unsigned maxPieces, unsigned const* at = nullptr, unsigned nAt = 0)
{
    unsigned pos = 0, k = 0;
    unsigned const idleAt = choose("spurious", 3);
    while (pos < n)
    {
        unsigned const left = n - pos;
        unsigned take;
        ++k;
        if (at) { take = k <= nAt && at[k - 1] < left ? at[k - 1] : left; if (!take) continue; }
        else take = k >= maxPieces ? left : 1 + choose("cut", left);
        if (k == idleAt)
        {
            Before const b = before();
            fake::guarded([&] { conn[i].link->event(LinkEvent::data); });
            CHECK(fwd.n == b.fwd && conn[i].link->nSend == b.sends[i], "something is handled without data");
            settle(i, b, stays);
        }
        if (pos + take == n) { complete(i, w, n, pos); }
        else
        {
            Before const b = before();
            feed(i, w + pos, take);
            CHECK(fwd.n == b.fwd && conn[i].link->nSend == b.sends[i], "an incomplete message is handled");
            settle(i, b, stays);
        }
        pos += take;
    }
}
}
extern "C" void h_uat_segments()
{
    world();
    accept(0);
    unsigned const which = choose("which", 2);
    uint8_t* w = fresh();
    mkHello(w, 0);
    if (which == 0) inPieces(0, w, 32, THOROUGH ? 3 : 2); else complete(0, w, 32);
    w = fresh();
    mkMsg(w, 16, "OPN");
    if (which == 1) inPieces(0, w, 16, THOROUGH ? 5 : 4); else complete(0, w, 16);
    answer(0, opn, conn[0].id, 77, 4);
    w = fresh();
    mkMsg(w, 13, "MSG"); putLe(w + 8, 77);
    inPieces(0, w, 13, 2);
    answer(0, msg, conn[0].id, 77, 1);
    w = fresh();
    mkMsg(w, 12, "CLO"); putLe(w + 8, 77);
    complete(0, w, 12);
    sym_reach("all");
}
extern "C" void h_uat_segments_long()
{
    world();
    accept(0);
    hello(0);
    varyChunk = true;
    static unsigned const sizes[] = {1500, 4000, 1024, 1025, 2900, 3999};
    unsigned const n = sizes[choose("size", THOROUGH ? 6 : 2)];
    uint8_t* w = fresh();
    mkMsg(w, n, "OPN");
    static unsigned const firsts[] = {1, 8, 12, 536, 1023, 1024, 1025, 1460, 1499, 2048};
    static unsigned const seconds[] = {1, 512, 1024, 1460, 0};
    unsigned const at[2] = {firsts[choose("first", 10)], seconds[choose("second", 5)]};
    inPieces(0, w, n, 3, at, 2);
    answer(0, opn, conn[0].id, 1, 2);
    w = fresh();
    mkMsg(w, 30, "MSG"); putLe(w + 8, 1);
    complete(0, w, 30);
    sym_reach("long");
}
// a connection lost in the middle of a message does not spoil the next one with its number
extern "C" void h_uat_segments_lost()
{
    world();
    accept(0);
    bool const open = chooseBool("open");
    static uint8_t h[32], o[14];
    std::memcpy(h, "HELF", 4); putLe(h + 4, 32); putLe(h + 28, 0xffffffffu);
    std::memcpy(o, "OPNF", 4); putLe(o + 4, 14);
    if (open) complete(0, h, 32);
    unsigned const part = choose("part", 13);
    Before const b = before();
    if (part) { feed(0, open ? o : h, part); settle(0, b, stays); }
    if (chooseBool("timeout")) fire(0); else end(0, LinkResult::closed);
    for (int i = 0; i < 64; ++i)
    {
        nConn = 0;
        accept(0);
        complete(0, h, 32);
        complete(0, o, 14);
        end(0, LinkResult::closed);
    }
    sym_reach("reused");
}
