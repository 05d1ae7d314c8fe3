// The OPC UA server as a whole: transport, secure channels and services on one reactor, seen from the network.
#include "fake.h"
#define CLOCK_IMPL
#include "clock.h"
#include "UaTransport.hpp"
#include "UaTransportComponent.hpp"
#include "UaSecureChannel.hpp"
#include "UaSecureChannelComponent.hpp"
#include "UaService.hpp"
#include "UaServiceComponent.hpp"
#include "MsgStore.hpp"
#include <new>
using namespace app;
using fake::LinkEvent;
using app::reactor::LinkResult;

static bool symbolicTokens = true;
extern "C" int rand() { static int n = 1000; return symbolicTokens ? (int)(sym<uint32_t>("rand") & 0x7fffffff) : ++n; }

namespace
{
fake::Reactor* R;
uint32_t le(uint8_t const* p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }

// the messages between the components, in order of sending
struct Slot { alignas(16) uint8_t mem[reactor::maxMsgSize]; };
Slot slots[24];
int qHead = 0, qTail = 0;
void onMsg(app::reactor::MsgInterface const& m)
{
    CHECK(qTail - qHead < 24, "messages between the components pile up");
    std::memcpy(slots[qTail++ % 24].mem, &m, m.size());
}
int pending() { return qTail - qHead; }
void step()
{
    static Slot s;
    std::memcpy(s.mem, slots[qHead++ % 24].mem, sizeof(s.mem));
    auto& m = *reinterpret_cast<app::reactor::MsgInterface*>(s.mem);
    fake::guarded([&] { R->deliver(m); });
}
void drain() { for (int i = 0; pending(); ++i) { CHECK(i < 64, "the components never come to rest"); step(); } }

struct World
{
    fake::Reactor reactor;
    fake::Sender sender;
    ua::transport::UaTransportComponent tl;
    ua::securechannel::UaSecureChannelComponent sc;
    ua::service::UaServiceComponent sv;
    World() : tl((sender.on = onMsg, sender), (R = &reactor, static_cast<app::reactor::ReactorInterface&>(reactor))), sc(sender, reactor), sv(sender, reactor)
    {
        fake::quiet(LogLevel::LI);
        { app::reactor::MsgStore<MsgUaServiceInitReq> m; reactor.deliver(m.getMsg()); }
        { app::reactor::MsgStore<MsgUaSecureChannelInitReq> m; reactor.deliver(m.getMsg()); }
        { app::reactor::MsgStore<MsgUaTransportInitReq> m; reactor.deliver(m.getMsg()); }
        { app::reactor::MsgStore<MsgUaServiceConfigReq> m; reactor.deliver(m.getMsg()); }
        { app::reactor::MsgStore<MsgUaSecureChannelConfigReq> m; reactor.deliver(m.getMsg()); }
        app::reactor::MsgStore<MsgUaTransportConfigReq> c;
        c.getMsg().addr = {app::reactor::LinkAddr::Type::ipv4, {127, 0, 0, 1, 2, 3}};
        reactor.deliver(c.getMsg());
        qHead = qTail = 0;
        for (auto& l : reactor.links) l.keepTx = true;
    }
};
World& world() { static char mem[sizeof(World)] __attribute__((aligned(16))); return *new (mem) World; }

enum Op { hel, opn, endpoints, create, activate, read_, closeSession, clo };
struct Client
{
    fake::Link* link = nullptr; fake::Timer* timer = nullptr;
    bool live = false;
    uint32_t ch = 0, token = 0, seq = 0, rxSeq = 0, auth = 0, reqId = 0, handle = 0;
    bool seenSeq = false;
    int waiting = -1;                     // what the outstanding request is
    unsigned at = 0;                      // answers read so far
};
Client cl[3];

void connect(int i)
{
    bool liveT[fake::Reactor::N];
    for (int k = 0; k < fake::Reactor::N; ++k) liveT[k] = R->timers[k].live;
    fake::guarded([&] { R->acceptors[0].event(); });
    Client& c = cl[i];
    c = Client{};
    c.link = R->acceptors[0].last;
    CHECK(c.link && c.link->live, "a connection is not accepted although the server has room");
    c.link->txLen = 0;
    for (int k = 0; k < fake::Reactor::N; ++k) if (R->timers[k].live && !liveT[k]) c.timer = &R->timers[k];
    CHECK(c.timer, "an accepted connection is not supervised by a timer");
    c.live = true;
    c.seq = sym<uint32_t>("firstseq");
}
struct Buf
{
    uint8_t b[320]; unsigned n = 0;
    void u8(unsigned v) { b[n++] = (uint8_t)v; }
    void u16(unsigned v) { u8(v); u8(v >> 8); }
    void u32(uint32_t v) { u16(v & 0xffff); u16(v >> 16); }
    void any(unsigned k) { sym_make(b + n, k, "any"); n += k; }
    void str() { u32(0xffffffffu); }
    void tag(char const* t) { std::memcpy(b, t, 4); n = 8; }
    void done() { b[4] = (uint8_t)n; b[5] = (uint8_t)(n >> 8); b[6] = b[7] = 0; }
};
void token(Buf& b, uint32_t t) { b.u8(2); b.u16(0); b.u32(t); }
void body(Buf& b, Client& c, Op o)
{
    static unsigned const ids[] = {0, 446, 428, 461, 467, 631, 473, 452};
    b.u8(1); b.u8(0); b.u16(ids[o]);
    token(b, o == activate || o == read_ || o == closeSession ? c.auth : 0);
    b.any(8);
    b.u32(c.handle);
    b.any(4); b.str(); b.any(4); b.u8(0); b.u8(0); b.u8(0);
    switch (o)
    {
    case opn: b.u32(0); b.u32(0); b.u32(1); b.str(); b.any(4); break;
    case endpoints: b.str(); b.str(); b.str(); break;
    case create: b.str(); b.str(); b.u8(0); b.u32(1); b.str(); b.str(); b.str(); b.str(); b.str(); b.u32(2); b.any(2); b.str(); b.str(); b.any(8); b.any(4); break;
    case activate: b.str(); b.str(); b.str(); b.str(); b.u8(0); b.u8(0); b.u8(0); b.str(); b.str(); break;
    case closeSession: b.u8(1); break;
    case read_: b.any(8); b.u32(0); b.str(); break;
    default: break;
    }
}
void request(Buf& b, Client& c, Op o)
{
    c.handle = sym<uint32_t>("handle"); c.reqId = sym<uint32_t>("reqid");
    if (o == hel) { b.tag("HELF"); b.any(20); b.str(); b.done(); return; }
    b.tag(o == opn ? "OPNF" : o == clo ? "CLOF" : "MSGF");
    b.u32(o == opn ? 0 : c.ch);
    if (o == opn) { b.str(); b.str(); b.str(); }
    else { b.u32(c.token); ++c.seq; }
    b.u32(c.seq); b.u32(c.reqId);
    body(b, c, o);
    b.done();
}
void put(Client& c, uint8_t const* p, unsigned n)
{
    c.link->rx = p; c.link->rxLen = n; c.link->rxStatus = LinkResult::ok;
    fake::guarded([&] { c.link->event(LinkEvent::data); });
    c.link->rxLen = 0; c.link->rxStatus = LinkResult::na;
}
void ask(int i, Op o, unsigned cut = 0)
{
    Client& c = cl[i];
    Buf b;
    request(b, c, o);
    c.waiting = o;
    c.at = c.link->txLen = 0;
    if (cut && cut < b.n) { put(c, b.b, cut); put(c, b.b + cut, b.n - cut); }
    else put(c, b.b, b.n);
}
struct Reader
{
    uint8_t const* p; uint32_t n, at = 0;
    uint8_t u8() { CHECK(at < n, "a response is cut off"); return p[at++]; }
    uint32_t u32() { CHECK(at + 4 <= n, "a response is cut off"); at += 4; return le(p + at - 4); }
    void skip(uint32_t k) { CHECK(k <= n && at + k <= n, "a response is cut off"); at += k; }
    void str() { uint32_t const l = u32(); if (l != 0xffffffffu) skip(l); }
    uint32_t number()
    {
        uint8_t const k = u8();
        CHECK(k < 3, "a session has a numeric id");
        if (k == 0) return u8();
        if (k == 1) { u8(); uint32_t const a = u8(); return a | (uint32_t)u8() << 8; }
        u8(); u8();
        return u32();
    }
};
// the outstanding request of client i has to be answered, exactly once and with its own numbers
void answered(int i)
{
    Client& c = cl[i];
    static char const* const tags[] = {"ACKF", "OPNF", "MSGF", "MSGF", "MSGF", "MSGF", "MSGF", "CLOF"};
    static unsigned const ids[] = {0, 449, 431, 464, 470, 634, 476, 455};
    int const o = c.waiting;
    uint8_t const* w = c.link->tx;
    unsigned const n = c.link->txLen;
    CHECK(n >= 28, "a request is not answered");
    CHECK(le(w + 4) == n && !std::memcmp(w, tags[o], 4), "a request is answered with exactly one message of the right kind");
    c.waiting = -1;
    if (o == hel) { CHECK(n == 28, "a Hello is answered with one Acknowledge"); sym_reach("hello"); return; }
    Reader r{w, n, 8};
    uint32_t const ch = r.u32();
    if (o == opn) { r.str(); r.str(); r.str(); c.ch = ch; }
    else CHECK(ch == c.ch && r.u32() == c.token, "an answer carries the numbers of its channel");
    uint32_t const seq = r.u32();
    CHECK(!c.seenSeq || seq == c.rxSeq + 1, "sequence numbers of answers do not increase by one");
    c.seenSeq = true; c.rxSeq = seq;
    CHECK(r.u32() == c.reqId, "an answer carries the id of its request");
    CHECK(r.u8() == 1 && r.u8() == 0, "an answer is not of the type that belongs to its request");
    uint32_t const lo = r.u8();
    CHECK((lo | r.u8() << 8) == ids[o], "an answer is not of the type that belongs to its request");
    uint64_t const t = r.u32();
    CHECK((int64_t)(t | (uint64_t)r.u32() << 32) == sys::wallTicks(), "an answer does not have the time it was made");
    CHECK(r.u32() == c.handle && r.u32() == 0, "an answer carries the handle of its request and is good");
    r.u8(); r.str(); r.skip(3);
    if (o == opn) { r.u32(); CHECK(r.u32() == ch, "the token names the channel"); c.token = r.u32(); sym_reach("channel"); }
    if (o == create)
    {
        r.number();
        c.auth = r.number();
        sym_reach("session");
    }
    if (o == endpoints) { CHECK(r.u32() == 1, "the server names its endpoint"); sym_reach("endpoints"); }
    if (o == activate) sym_reach("activated");
    if (o == read_) sym_reach("read");
    if (o == closeSession) sym_reach("session-closed");
}
void gone(int i, char const* what)
{
    Client& c = cl[i];
    CHECK(!c.link->live && !c.timer->live, what);
    c.live = false;
}
void supervised(int i, char const* what) { CHECK(cl[i].link->live && cl[i].link->st == fake::Link::connected && cl[i].timer->live && cl[i].timer->armed, what); }
void quiet(int i) { CHECK(cl[i].link->txLen == 0, "a client gets an answer it did not ask for"); }
// one request and its answer
void exchange(int i, Op o, unsigned cut = 0)
{
    ask(i, o, cut);
    drain();
    answered(i);
    cl[i].link->txLen = 0;
    if (o == clo) { gone(i, "a connection whose channel was closed is not released"); sym_reach("closed"); }
    else supervised(i, "a connection in use is closed");
}
void lose(int i)
{
    cl[i].link->rxStatus = LinkResult::closed;
    fake::guarded([&] { cl[i].link->event(LinkEvent::data); });
    gone(i, "a lost connection is not released");
}
void session(int i) { exchange(i, create); exchange(i, activate); }
Op const script[] = {hel, opn, create, activate, read_, closeSession, clo};
}

// a whole conversation, every request cut anywhere
extern "C" void h_ue_conversation()
{
    world();
    connect(0);
    unsigned const where = choose("where", 9);
    static Op const all[] = {hel, opn, endpoints, create, activate, read_, endpoints, closeSession, clo};
    for (unsigned k = 0; k < 9; ++k) exchange(0, all[k], k == where ? 1 + choose("cut", THOROUGH ? 160 : 80) : 0);
    CHECK(R->nLinksLive == 0 && R->nTimersLive == 0, "a finished conversation leaves something behind");
    sym_trace(cl[0].rxSeq);
}
// two clients, interleaved in every way
extern "C" void h_ue_two()
{
    world();
    connect(0);
    bool const late = chooseBool("late");
    if (!late) connect(1);
    unsigned pos[2] = {0, 0};
    unsigned const n = THOROUGH ? 7 : 5;
    if (!THOROUGH && !late) { exchange(0, hel); exchange(1, hel); pos[0] = pos[1] = 1; }
    while (pos[0] < n + (pos[1] ? 0 : 0) || pos[1] < n)
    {
        unsigned const i = pos[0] >= n ? 1 : pos[1] >= n ? 0 : choose("who", 2);
        if (i == 1 && !cl[1].link) connect(1);
        exchange((int)i, script[pos[i]++]);
        if (cl[0].link) quiet(0);
        if (cl[1].link) quiet(1);
    }
    if (cl[0].live && cl[1].live)
    {
        CHECK(cl[0].ch != cl[1].ch, "two channels have the same number");
        CHECK(cl[0].auth != cl[1].auth, "two sessions have the same token");
    }
    sym_reach("both");
}
// clients act, vanish and fall silent while messages are still on their way between the components
extern "C" void h_ue_race()
{
    symbolicTokens = false;
    world();
    connect(0); connect(1);
    exchange(0, hel); exchange(1, hel);
    unsigned pos[2] = {1, 1};
    unsigned const warm = choose("warm", 4);
    for (unsigned k = 0; k < warm; ++k) exchange(0, script[pos[0]++]);
    if (chooseBool("other")) { exchange(1, opn); pos[1] = 2; }
    int const steps = THOROUGH ? 5 : 4;
    for (int s = 0; s < steps; ++s)
    {
        while (pending() && chooseBool("deliver")) step();
        int const i = (int)choose("who", 2);
        Client& c = cl[i];
        if (!c.live) sym_end_path();
        if (c.waiting >= 0 && c.link->txLen)
        {
            bool const last = c.waiting == clo;
            answered(i);
            if (last && !c.link->live) { c.live = false; continue; }
        }
        c.link->txLen = c.waiting >= 0 ? c.link->txLen : 0;
        switch (choose("event", 3))
        {
        case 0:
            if (c.waiting >= 0 || pos[i] >= 7) sym_end_path();
            ask(i, script[pos[i]++]);
            break;
        case 1: lose(i); sym_reach("lost"); break;
        case 2:
            if (!c.timer->armed) sym_end_path();
            fake::guarded([&] { c.timer->fire(); });
            gone(i, "a silent connection is not released");
            sym_reach("timeout");
            break;
        }
    }
    drain();
    for (int i = 0; i < 2; ++i) if (cl[i].live)
    {
        if (cl[i].waiting >= 0)
        {
            bool const last = cl[i].waiting == clo;
            answered(i);
            cl[i].link->txLen = 0;
            if (last) { gone(i, "a connection whose channel was closed is not released"); continue; }
        }
        supervised(i, "a connection in use is closed");
        while (pos[i] < 7) exchange(i, script[pos[i]++]);
        sym_reach("finished");
    }
    CHECK(R->nLinksLive == 0 && R->nTimersLive == 0, "connections that ended leave something behind");
}
// a client with a session, and one that sends messages with arbitrary numbers
extern "C" void h_ue_intruder()
{
    world();
    connect(0);
    for (unsigned k = 0; k < 4; ++k) exchange(0, script[k]);
    connect(1);
    exchange(1, hel);
    bool const own = chooseBool("ownchannel");
    if (own)
    {
        exchange(1, opn);
        if (chooseBool("ownsession")) session(1);
    }
    Client& c = cl[1];
    Client const good = c;
    static Op const ops[] = {create, activate, read_, clo, endpoints};
    Op const o = ops[choose("op", 5)];
    // which numbers are forged
    unsigned const what = choose("forged", 5);
    if (what == 0) c.ch = cl[0].ch;
    if (what == 1) c.ch = sym<uint32_t>("ch");
    if (what == 2) c.token = sym<uint32_t>("token");
    if (what == 3) c.seq = sym<uint32_t>("seq");
    if (what == 4) { c.ch = cl[0].ch; c.token = cl[0].token; c.seq = cl[0].seq; c.auth = cl[0].auth; }
    ask(1, o);
    drain();
    if (own && c.ch == good.ch && c.token == good.token && c.seq == good.seq + 1)
    {
        if ((o == activate || o == read_) && !good.auth) CHECK(c.link->txLen == 0, "a request without a session is served");
        else { answered(1); sym_reach("served"); }
    }
    else
    {
        CHECK(c.link->txLen == 0, "a message with forged numbers is answered");
        gone(1, "a connection with forged numbers is not closed");
        sym_reach("closed-out");
    }
    // the other client does not notice
    quiet(0);
    exchange(0, read_);
    exchange(0, closeSession);
    exchange(0, clo);
}
// one conversation after the other; every way to end one gives everything back
extern "C" void h_ue_cycles()
{
    symbolicTokens = false;
    world();
    unsigned const len = choose("len", 7);
    unsigned const how = choose("how", 4);
    unsigned const k = choose("deliver", 4);
    if (len >= 3 && len < 6) sym_end_path();          // sessions end by being closed
    uint64_t heap = 0;
    for (int i = 0; i < 300; ++i)
    {
        connect(0);
        for (unsigned s = 0; s < len; ++s) exchange(0, script[s]);
        if (len < 6)
        {
            Op const next = len < 2 ? script[len] : endpoints;
            if (how == 3) exchange(0, next); else { ask(0, next); for (unsigned d = 0; d < k && pending(); ++d) step(); }
        }
        if (!cl[0].link->live) ;
        else if (how == 0 || how == 3) lose(0);
        else if (how == 1) { fake::guarded([&] { cl[0].timer->fire(); }); gone(0, "a silent connection is not released"); }
        else
        {
            // nonsense
            Buf b; b.tag("XXXF"); b.u32(0); b.done();
            put(cl[0], b.b, b.n);
            gone(0, "a connection that sends nonsense is not closed");
        }
        drain();
        CHECK(R->nLinksLive == 0 && R->nTimersLive == 0, "connections that ended leave something behind");
        if (i == 33) heap = sym_live_heap();
    }
    CHECK(sym_live_heap() <= heap, "connections take up memory for ever");
    sym_reach("reused");
}
