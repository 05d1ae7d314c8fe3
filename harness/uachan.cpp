// The OPC UA secure channel library (server and client side), driven through its interface.
#include "fake.h"
#define CLOCK_IMPL
#include "clock.h"
#include "uacodec.h"
#include "OpcUaServerSecureChannel.hpp"
#include "OpcUaClientSecureChannel.hpp"
#include <new>
using namespace app;
using namespace app::ua;
using fake::LinkEvent;
using app::reactor::LinkResult;

extern "C" int rand() { return (int)(sym<uint32_t>("rand") & 0x7fffffff); }

namespace
{
fake::Reactor* R;
uint32_t le(uint8_t const* p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
void putLe(uint8_t* p, uint32_t v) { p[0] = (uint8_t)v; p[1] = (uint8_t)(v >> 8); p[2] = (uint8_t)(v >> 16); p[3] = (uint8_t)(v >> 24); }

int nEst = 0, nReq = 0, nClosed = 0, nError = 0;
unsigned reqLen = 0;
uint8_t reqData[4200];
bool reply = false;
OpcUaSduBuffer* answer;
void onEvent(OpcUaSecureChannelEvent const& e);
struct World
{
    fake::Reactor reactor;
    OpcUaServerSecureChannel sv;
    OpcUaClientSecureChannel cl;
    World() : sv(3, (R = &reactor, reactor)), cl(4, reactor) { sv.setHandler(onEvent); cl.setHandler(onEvent); }
};
World* W;
bool client = false;
OpcUaSecureChannel& chan() { return client ? static_cast<OpcUaSecureChannel&>(W->cl) : W->sv; }
void onEvent(OpcUaSecureChannelEvent const& e)
{
    CHECK(&e.channel == &chan(), "an event names another channel");
    switch (e.type)
    {
    case OpcUaSecureChannelEvent::established: ++nEst; break;
    case OpcUaSecureChannelEvent::request:
    {
        ++nReq;
        OpcUaSduBuffer& b = e.channel.getRxBuffer();
        reqLen = b.size();
        CHECK(reqLen <= 4096, "a request is longer than the largest message");
        std::memcpy(reqData, b.begin(), reqLen);
        if (reply) e.channel.send(*answer);
    }
    break;
    case OpcUaSecureChannelEvent::closed: ++nClosed; break;
    case OpcUaSecureChannelEvent::error: ++nError; break;
    }
}
bool faultSend = false;
bool sendOk(fake::Link&) { return !(faultSend && chooseBool("sendfail")); }
bool noTimer = false, noLink = false, noConnect = false;
bool timerOk() { return !noTimer; }
bool linkOk() { return !noLink; }
bool connectOk(fake::Link&) { return !noConnect; }
World& world(bool cl)
{
    static char mem[sizeof(World)] __attribute__((aligned(16)));
    fake::quiet(LogLevel::LI);
    client = cl;
    W = new (mem) World;
    answer = new OpcUaSduBuffer;
    for (auto& l : R->links) { l.sendOk = sendOk; l.connectOk = connectOk; }
    R->timerOk = timerOk; R->linkOk = linkOk;
    return *W;
}
enum St { idle, connecting, shaking, opening, established } st = idle;
fake::Link* lnk; fake::Timer* timer;
uint32_t chId, token, rxSeq, txSeq; bool first;
void find() { lnk = nullptr; timer = nullptr; for (auto& l : R->links) if (l.live) lnk = &l; for (auto& t : R->timers) if (t.live) timer = &t; }
struct Seen { int req, closed, error, sends; };
Seen seen() { return {nReq, nClosed, nError, lnk ? lnk->nSend : 0}; }
int reports(Seen const& b) { return nClosed + nError - b.closed - b.error; }
int sent(Seen const& b) { return lnk->nSend - b.sends; }
void isIdle(char const* what) { CHECK(R->nLinksLive == 0 && R->nTimersLive == 0, what); st = idle; }
void ended(Seen const& b)
{
    CHECK(nReq == b.req, "a channel that ends reports a request");
    CHECK(reports(b) == 1, "the end of a channel is reported exactly once");
    isIdle("a channel that ended keeps its link or timer");
}
void alive(Seen const& b)
{
    CHECK(reports(b) == 0, "the end of a channel is reported without reason");
    CHECK(R->nLinksLive == 1 && R->nTimersLive == 1 && lnk->live && lnk->st != fake::Link::closed && timer->armed, "a channel is given up without reason");
}
// messages that do not belong to the state of the channel: they have no effect, or they end it
void either(Seen const& b)
{
    CHECK(nReq == b.req, "a message is reported as a request although the channel is not open or the message is not one");
    CHECK(sent(b) == 0, "a message that is not served is answered");
    if (R->nLinksLive) { alive(b); sym_reach("ignored"); } else { ended(b); sym_reach("ended-early"); }
}
void receive(uint8_t* p, unsigned n)
{
    lnk->rx = p; lnk->rxLen = n; lnk->rxStatus = LinkResult::ok;
    sys::wall.tv_sec += 86399; sys::wall.tv_usec = (sys::wall.tv_usec + 7) % 1000000;
    fake::guarded([&] { lnk->event(LinkEvent::data); });
    lnk->rxStatus = LinkResult::na; lnk->rxLen = 0;
}
// ------------------------------------------------------------------ server
bool accept(bool fail)
{
    lnk = nullptr;
    Seen const b = seen();
    app::reactor::LinkPtr l = R->createLink([](LinkEvent) {});
    for (auto& x : R->links) if (x.live) { x.st = fake::Link::connected; x.fd = 7; }
    noTimer = fail;
    bool const ok = fake::guarded([&] { W->sv.open(l); });
    noTimer = false;
    if (fail)
    {
        l.reset();
        if (ok) CHECK(reports(b) == 1, "a channel that can not be set up is neither refused nor reported"); else CHECK(reports(b) == 0, "a channel that is refused is also reported");
        isIdle("a channel that can not be set up keeps its link or timer");
        sym_reach("start-failed");
        return false;
    }
    CHECK(ok, "a channel can not be set up");
    find();
    CHECK(nReq == b.req && reports(b) == 0 && lnk && lnk->nSend == 0, "a new channel does something before it is asked");
    alive(b);
    st = shaking; first = true;
    return true;
}
bool hello()
{
    static uint8_t h[32];
    std::memcpy(h, "HELF", 4); putLe(h + 4, 32); putLe(h + 8, 0); putLe(h + 12, 65535); putLe(h + 16, 65535); putLe(h + 20, 0); putLe(h + 24, 0); putLe(h + 28, 0xffffffffu);
    Seen const b = seen();
    receive(h, 32);
    if (!sent(b)) { CHECK(faultSend, "a Hello is not answered"); ended(b); sym_reach("ack-failed"); return false; }
    CHECK(sent(b) == 1 && lnk->txLen == 28 && !std::memcmp(lnk->tx, "ACKF", 4), "a Hello is acknowledged");
    CHECK(nReq == b.req, "a request is reported without one");
    alive(b);
    st = opening;
    return true;
}
// reads what was sent, written down from the OPC UA binary encoding
struct Reader
{
    uint8_t const* p; uint32_t n, at = 0;
    uint8_t u8() { CHECK(at < n, "a response is cut off"); return p[at++]; }
    uint32_t u32() { CHECK(at + 4 <= n, "a response is cut off"); at += 4; return le(p + at - 4); }
    void skip(uint32_t k) { CHECK(at + k <= n, "a response is cut off"); at += k; }
    void nullOrEmpty() { uint32_t const l = u32(); CHECK(l == 0 || l == 0xffffffffu, "a response has an unexpected part"); }
    void now() { uint64_t const lo = u32(); CHECK((int64_t)(lo | (uint64_t)u32() << 32) == sys::wallTicks(), "a response does not have the time it was made"); }
    void done() { CHECK(at == n, "a response has trailing bytes"); }
    void frame(char const* type)
    {
        CHECK(n >= 12 && !std::memcmp(p, type, 3) && p[3] == 'F' && le(p + 4) == n, "a response is one complete message of the right type");
        at = 8;
    }
    void seq(uint32_t reqId)
    {
        uint32_t const s = u32();
        if (!first) CHECK(s == txSeq + 1, "sequence numbers do not increase by one");
        txSeq = s; first = false;
        CHECK(u32() == reqId, "a response does not have the id of its request");
    }
};
void head(Gen& g, char const* type) { for (int i = 0; i < 3; ++i) g.ref.put((uint8_t)type[i]); g.ref.put('F'); g.ref.le(0, 4); UInt32 c; gen(g, c); }
// cut: number of bytes removed from the end
void openReq(Gen& g, unsigned cut)
{
    head(g, "OPN");
    UaSecurityHeader sh; gen(g, sh);
    UaSequenceHeader q; gen(g, q);
    UaOpenSecureChannelReqCont req; gen(g, req);
    CHECK(cut < g.ref.n - 12, "harness: cut");
    g.ref.n -= cut;
    putLe(g.ref.b + 4, g.ref.n);
    Seen const b = seen();
    receive(g.ref.b, g.ref.n);
    CHECK(nReq == b.req, "opening a channel is reported as a request");
    if (st != opening && st != established) { either(b); return; }
    if (cut)
    {
        CHECK(sent(b) == 0, "a malformed request to open the channel is answered");
        ended(b);
        sym_reach("open-malformed");
        return;
    }
    if (!sent(b)) { CHECK(faultSend, "a request to open the channel is not answered"); ended(b); sym_reach("open-failed"); return; }
    alive(b);
    CHECK(sent(b) == 1, "a request to open the channel is answered once");
    Reader r{lnk->tx, lnk->txLen};
    r.frame("OPN");
    uint32_t const ch = r.u32();
    if (st == established) CHECK(ch == chId, "a channel changes its number");
    chId = ch;
    static char const uri[] = "http://opcfoundation.org/UA/SecurityPolicy#None";
    unsigned const ul = sizeof(uri) - 1;
    CHECK(r.u32() == ul && r.n > 70 && !std::memcmp(r.p + r.at, uri, ul), "the answer names its security policy");
    r.skip(ul);
    r.nullOrEmpty(); r.nullOrEmpty();
    r.seq(q.requestId);
    CHECK(r.u8() == 1 && r.u8() == 0 && (r.u8() | r.u8() << 8) == 449, "the answer is an open response");
    r.now();
    CHECK(r.u32() == (uint32_t)req.msg.requestHdr.requestHandle, "a response does not have the handle of its request");
    CHECK(r.u32() == 0, "a request that is served is not reported as good");
    CHECK(r.u8() == 0, "a response has unexpected diagnostics");
    r.nullOrEmpty();
    CHECK(r.u8() == 0 && r.u8() == 0 && r.u8() == 0, "a response has an unexpected additional header");
    CHECK(r.u32() == 0, "the answer names the protocol version");
    CHECK(r.u32() == chId, "the token names the channel");
    token = r.u32();
    r.now();
    CHECK(r.u32() == (uint32_t)req.msg.requestLifetime, "the token has the requested lifetime");
    r.nullOrEmpty();
    r.done();
    rxSeq = q.sequenceNumber;
    sym_reach(st == established ? "renewed" : "opened");
    st = established;
}
void sendAnswer(unsigned n)
{
    delete answer;
    answer = new OpcUaSduBuffer;
    uint8_t body[4] = {1, 2, 3, 4};
    if (n) sym_make(body, 4, "body");
    for (unsigned i = 0; i < n; ++i) answer->write(body[i & 3]);
}
bool checkAnswer(Seen const& b, uint32_t reqId)
{
    unsigned const n = answer->size();
    if (n + 24 > 4096) { CHECK(sent(b) == 0, "a response that is longer than a message is sent"); sym_reach("too-long"); return true; }
    if (!sent(b)) { CHECK(faultSend, "a response is not sent"); sym_reach("response-failed"); return false; }
    CHECK(sent(b) == 1, "a response is sent once");
    Reader r{lnk->tx, lnk->txLen};
    r.frame("MSG");
    CHECK(r.u32() == chId, "a response has the number of the channel");
    CHECK(r.u32() == token, "a response has the token of the channel");
    r.seq(reqId);
    CHECK(lnk->txLen == 24 + n && !std::memcmp(lnk->tx + 24, answer->begin(), n), "a response is sent unchanged and complete");
    sym_reach("response");
    return true;
}
// a message of the established channel; the numbers in it are symbolic
void message(char const* type, unsigned payload, unsigned size)
{
    Gen g; g.free = false;
    head(g, type);
    UaSecurityTokenHeader t; gen(g, t);
    UaSequenceHeader q; gen(g, q);
    if (payload) sym_make(g.ref.b + g.ref.n, payload < 8 ? payload : 8, "payload");
    for (unsigned i = 8; i < payload; ++i) g.ref.b[g.ref.n + i] = (uint8_t)i;
    g.ref.n += payload;
    if (size < g.ref.n) g.ref.n = size;
    putLe(g.ref.b + 4, g.ref.n);
    bool const whole = g.ref.n >= 24, msg = type[0] == 'M' && type[1] == 'S' && type[2] == 'G', clo = type[0] == 'C' && type[1] == 'L' && type[2] == 'O';
    bool const good = whole && t.tokenId == token && q.sequenceNumber == rxSeq + 1;
    Seen const b = seen();
    receive(g.ref.b, g.ref.n);
    if (st != established || (!msg && !clo)) { either(b); return; }
    if (!good)
    {
        CHECK(nReq == b.req, "a message with a wrong token or sequence number, or a malformed one, is reported as a request");
        CHECK(sent(b) == 0, "a wrong message is answered");
        ended(b);
        sym_reach("refused");
        return;
    }
    if (clo)
    {
        CHECK(sent(b) == 0, "closing a channel is answered");
        ended(b);
        sym_reach("closed");
        return;
    }
    CHECK(nReq == b.req + 1, "a message with the token of the channel and the next sequence number is reported once");
    CHECK(reqLen == g.ref.n - 24 && !std::memcmp(reqData, g.ref.b + 24, reqLen), "a request is reported with all of its content and nothing else");
    rxSeq = q.sequenceNumber;
    sym_reach("request");
    if (!reply) CHECK(sent(b) == 0, "something is sent without reason");
    else if (!checkAnswer(b, q.requestId))
    {
        // the response could not be sent: the channel stays or ends
        if (!R->nLinksLive) { CHECK(reports(b) == 1, "the end of a channel is reported exactly once"); isIdle("a channel that ended keeps its link or timer"); return; }
        first = true;
    }
    alive(b);
}
void lost(int s)
{
    Seen const b = seen();
    lnk->rxStatus = s;
    fake::guarded([&] { lnk->event(LinkEvent::data); });
    CHECK(sent(b) == 0, "something is sent on a lost connection");
    ended(b);
    sym_reach("lost");
}
void timeout()
{
    Seen const b = seen();
    fake::guarded([&] { timer->fire(); });
    CHECK(sent(b) == 0, "a timeout sends something");
    ended(b);
    sym_reach("timeout");
}
void openPlain() { Gen g; g.free = false; openReq(g, 0); }
}

// every order of events
extern "C" void h_sc_history()
{
    world(false);
    faultSend = true;
    sendAnswer(5); reply = true;
    unsigned const n = THOROUGH ? 7 : 6;
    int fresh = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        if (st == idle) { if (!accept(fresh == 0 && chooseBool("notimer"))) { ++fresh; } continue; }
        unsigned const k = choose("action", st == shaking ? 4 : 7);
        if (k == 0) { if (st == shaking) hello(); else openPlain(); }
        else if (k == 1) lost(chooseBool("how") ? LinkResult::closed : LinkResult::error);
        else if (k == 2) timeout();
        else if (st == shaking) { Seen const b = seen(); static uint8_t bad[12] = {'M', 'S', 'G', 'F', 12}; receive(bad, 12); CHECK(sent(b) == 0, "a message before Hello is answered"); ended(b); sym_reach("no-hello"); }
        else if (k == 3) message("MSG", 3, ~0u);
        else if (k == 4) message("CLO", 0, ~0u);
        else if (k == 5) { Gen g; g.free = false; openReq(g, 3); }
        else message("XYZ", 3, ~0u);
    }
}
// open requests of every form and cut anywhere
extern "C" void h_sc_open()
{
    world(false);
    accept(false); hello();
    bool const again = chooseBool("again");
    if (again) openPlain();
    Gen g; g.free = false; g.base = chooseBool("base"); g.pick = choose("pick", 24);
    unsigned const cut = choose("cut", THOROUGH ? 60 : 24);
    openReq(g, cut);
}
// one long text in any place, with all messages logged
extern "C" void h_sc_long()
{
    world(false);
    fake::quiet(LogLevel::LD);
    accept(false); hello();
    if (chooseBool("again")) openPlain();
    Gen g; g.free = false; g.base = chooseBool("base"); g.longAt = choose("which", 10); g.longLen = longText();
    openReq(g, 0);
    if (g.strs <= g.longAt) sym_end_path();
    char type[4] = "MSG";
    message(type, 4, ~0u);
    sym_reach("long");
}
// messages of every size, with symbolic token, sequence number and request id; responses of several sizes
extern "C" void h_sc_message()
{
    world(false);
    accept(false); hello(); openPlain();
    static unsigned const sizes[] = {0, 1, 4, 7, 8, 100, 4071, 4072};
    static unsigned const answers[] = {0, 1, 7, 4071, 4072, 4073, 4096};
    char type[4] = "MSG";
    unsigned const mode = choose("mode", 4);
    if (mode == 0)
    {
        reply = true;
        sendAnswer(answers[choose("answer", 7)]);
        message(type, sizes[choose("size", 8)], ~0u);
        if (st == established && chooseBool("shorter")) sendAnswer(9);
        if (st == established) message(type, 4, ~0u);
        if (st == established) message("CLO", 0, ~0u);
    }
    else if (mode == 1) message(chooseBool("clo") ? "CLO" : "MSG", 0, 8 + choose("bytes", 16));
    else if (mode == 2)
    {
        sym_make(type, 3, "type");
        bool const opn = type[0] == 'O' && type[1] == 'P' && type[2] == 'N';
        if (opn) return;
        message(type, 6, ~0u);
    }
    else message("CLO", sizes[choose("size", 4)], ~0u);
}
// arbitrary bytes in place of a message
extern "C" void h_sc_junk()
{
    world(false);
    accept(false); hello();
    if (chooseBool("open")) openPlain();
    unsigned const n = 8 + choose("size", THOROUGH ? 40 : 30);
    static uint8_t d[64];
    sym_make(d, n, "junk");
    static char const* const types[] = {"OPN", "MSG", "CLO", "ERR"};
    std::memcpy(d, types[choose("type", 4)], 3);
    d[3] = 'F';
    putLe(d + 4, n);
    Seen const b = seen();
    receive(d, n);
    if (d[0] == 'M' && st == established && n >= 24 && le(d + 12) == token && le(d + 16) == rxSeq + 1)
    {
        CHECK(nReq == b.req + 1 && reports(b) == 0 && reqLen == n - 24, "a well-formed request is reported");
        sym_reach("request");
        return;
    }
    if (d[0] == 'O' && sent(b)) { CHECK(sent(b) == 1 && nReq == b.req, "an open request is answered once"); alive(b); sym_reach("opened-again"); return; }
    CHECK(nReq == b.req && sent(b) == 0, "a message that is not a request has an effect");
    if (R->nLinksLive) alive(b); else { ended(b); sym_reach("junk-ended"); }
}
// one channel object serves many connections, one after the other
extern "C" void h_sc_reuse()
{
    world(false);
    sendAnswer(5); reply = true;
    unsigned const how = choose("how", 6);
    uint64_t heap = 0;
    for (unsigned i = 0; i < 300; ++i)
    {
        if (i == 20) heap = sym_live_heap();
        accept(false);
        if (how > 0) hello();
        if (how > 1)
        {
            Gen g; g.free = false; g.concrete = true; openReq(g, 0);
        }
        if (how == 0 || how == 2) lost(LinkResult::closed);
        else if (how == 1 || how == 3) timeout();
        else
        {
            uint8_t m[30] = {'M', 'S', 'G', 'F', 30};
            putLe(m + 12, token + (how == 4)); putLe(m + 16, rxSeq + 1); putLe(m + 20, i);
            if (how == 5) { m[0] = 'C'; m[1] = 'L'; m[2] = 'O'; }
            Seen const b = seen();
            receive(m, 30);
            ended(b);
        }
        CHECK(st == idle, "a channel has ended");
    }
    CHECK(sym_live_heap() <= heap, "memory is lost with every channel");
    sym_reach("reused");
}

// a channel serves as many messages as it is asked to
extern "C" void h_sc_many()
{
    world(false);
    accept(false); hello();
    { Gen g; g.free = false; g.concrete = true; openReq(g, 0); }
    sendAnswer(5); reply = true;
    uint64_t heap = 0;
    unsigned const n = 66000;
    for (unsigned i = 0; i < n; ++i)
    {
        if (i == 100) heap = sym_live_heap();
        uint8_t m[26] = {'M', 'S', 'G', 'F', 26};
        putLe(m + 12, token); putLe(m + 16, rxSeq + 1); putLe(m + 20, i);
        Seen const b = seen();
        receive(m, 26);
        CHECK(nReq == b.req + 1 && reqLen == 2, "a message with the token of the channel and the next sequence number is reported once");
        ++rxSeq;
        CHECK(checkAnswer(b, i), "a response is not sent");
        alive(b);
    }
    CHECK(sym_live_heap() <= heap, "memory is lost with every message");
    message("MSG", 2, ~0u);
    sym_reach("many");
}

// ------------------------------------------------------------------ client
namespace
{
app::reactor::LinkAddr where{app::reactor::LinkAddr::Type::ipv4, {10, 0, 0, 1, 1, 2}};
bool connect(unsigned fail)
{
    lnk = nullptr;
    Seen const b = seen();
    noTimer = fail == 1; noLink = fail == 2; noConnect = fail == 3;
    bool const ok = fake::guarded([&] { W->cl.open(where); });
    noTimer = noLink = noConnect = false;
    if (fail)
    {
        CHECK(reports(b) == (ok ? 1 : 0), "a channel that can not be set up is refused or reported once");
        isIdle("a channel that can not be set up keeps its link or timer");
        sym_reach("start-failed");
        return false;
    }
    CHECK(ok, "a channel can not be set up");
    CHECK(R->nLinksLive == 1, "a channel that ended can not be opened again");
    find();
    CHECK(reports(b) == 0 && lnk->st == fake::Link::connecting && !std::memcmp(lnk->addr.data, where.data, 6), "a channel is opened to the given address");
    st = connecting;
    return true;
}
void up()
{
    Seen const b = seen();
    lnk->st = fake::Link::connected;
    fake::guarded([&] { lnk->event(LinkEvent::connected); });
    if (!sent(b)) { CHECK(faultSend, "no Hello is sent"); ended(b); sym_reach("hello-failed"); return; }
    CHECK(sent(b) == 1 && !std::memcmp(lnk->tx, "HELF", 4), "a connection begins with Hello");
    alive(b);
    st = shaking;
}
void refusedConnect()
{
    Seen const b = seen();
    lnk->close();
    fake::guarded([&] { lnk->event(LinkEvent::error); });
    ended(b);
    sym_reach("no-connection");
}
void ack()
{
    static uint8_t a[28];
    std::memcpy(a, "ACKF", 4); putLe(a + 4, 28); putLe(a + 8, 0); putLe(a + 12, 8192); putLe(a + 16, 8192); putLe(a + 20, 0); putLe(a + 24, 0);
    Seen const b = seen();
    receive(a, 28);
    CHECK(nReq == b.req, "a request is reported without one");
    if (!sent(b))
    {
        CHECK(faultSend, "no request to open the channel is sent");
        sym_reach("request-failed");
        if (!R->nLinksLive) { ended(b); return; }
        alive(b);
        st = opening;
        return;
    }
    alive(b);
    CHECK(sent(b) == 1, "one request to open the channel is sent");
    Reader r{lnk->tx, lnk->txLen};
    r.frame("OPN");
    CHECK(r.u32() == 0, "a channel that is not open yet has no number");
    for (int i = 0; i < 3; ++i) { uint32_t const l = r.u32(); if (l != 0xffffffffu) r.skip(l); }
    r.u32(); r.u32();
    CHECK(r.u8() == 1 && r.u8() == 0 && (r.u8() | r.u8() << 8) == 446, "the request is an open request");
    st = opening;
    sym_reach("asked");
}
void response(Gen& g, char const* type, unsigned cut)
{
    head(g, type);
    UaSecurityHeader sh; gen(g, sh);
    UaSequenceHeader q; gen(g, q);
    UaOpenSecureChannelRspCont rsp; gen(g, rsp);
    g.ref.n -= cut;
    putLe(g.ref.b + 4, g.ref.n);
    Seen const b = seen();
    receive(g.ref.b, g.ref.n);
    CHECK(nReq == b.req && sent(b) == 0, "a response has an unexpected effect");
    if (st == established) { if (R->nLinksLive) alive(b); else ended(b); return; }
    if (cut || std::memcmp(type, "OPN", 3)) { ended(b); sym_reach("bad-response"); return; }
    alive(b);
    st = established;
    sym_reach("open");
}
}
extern "C" void h_scc_history()
{
    world(true);
    faultSend = true;
    unsigned const n = THOROUGH ? 9 : 8;
    for (unsigned i = 0; i < n; ++i)
    {
        if (st == idle) { connect(i == 0 ? choose("fail", 4) : 0); continue; }
        unsigned const k = choose("action", st == opening || st == established ? 5 : 3);
        if (k == 0)
        {
            if (st == connecting) up();
            else if (st == shaking) ack();
            else { Gen g; g.free = false; response(g, "OPN", 0); }
        }
        else if (k == 1) { if (st == connecting) refusedConnect(); else lost(chooseBool("how") ? LinkResult::closed : LinkResult::error); }
        else if (k == 2) timeout();
        else if (k == 3) { Gen g; g.free = false; response(g, "MSG", 0); }
        else { Gen g; g.free = false; response(g, "OPN", 2); }
    }
}
// every form of response, cut anywhere
extern "C" void h_scc_response()
{
    world(true);
    connect(0); up(); ack();
    Gen g; g.free = false; g.base = chooseBool("base"); g.pick = choose("pick", 24);
    response(g, "OPN", choose("cut", THOROUGH ? 60 : 24));
}
extern "C" void h_scc_reuse()
{
    world(true);
    unsigned const how = choose("how", 7);
    uint64_t heap = 0;
    for (unsigned i = 0; i < 300; ++i)
    {
        if (i == 20) heap = sym_live_heap();
        connect(0);
        if (how > 0) up();
        if (how > 1) ack();
        if (how > 4) { Gen g; g.free = false; g.concrete = true; response(g, "OPN", 0); }
        if (how == 0) refusedConnect();
        else if (how == 1 || how == 2 || how == 5) lost(LinkResult::closed);
        else if (how == 3 || how == 6) timeout();
        else { Gen g; g.free = false; g.concrete = true; response(g, "OPN", 1); }
        CHECK(st == idle, "a channel has ended");
    }
    CHECK(sym_live_heap() <= heap, "memory is lost with every channel");
    sym_reach("reused");
}
