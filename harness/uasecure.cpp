// OPC UA secure channels, driven through their component.
#include "fake.h"
#define CLOCK_IMPL
#include "clock.h"
#include "uacodec.h"
#include "UaSecureChannel.hpp"
#include "UaSecureChannelComponent.hpp"
#include "MsgStore.hpp"
#include <new>
using namespace app;
using namespace app::ua;

static unsigned const MANY = 66000;
extern "C" int rand() { return (int)(sym<uint32_t>("rand") & 0x7fffffff); }

namespace
{
fake::Reactor* R;
uint32_t le(uint8_t const* p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }

enum Kind { none, openRsp, closeRsp, sendReq, fwdInd, releaseReq };
struct Out { Kind kind; uint32_t conn, ch, len; uint8_t chunk; UaEncodedMessageHdr hdr; uint8_t data[4096]; };
Out out[4];
int nOut = 0;
template <class M> void secured(Kind k, app::reactor::MsgInterface const& mi)
{
    M const& m = static_cast<M const&>(mi);
    Out& o = out[nOut++];
    o.kind = k; o.conn = m.connectionId; o.ch = m.secureChannelId; o.len = m.length; o.chunk = m.chunkType.toUint8();
    CHECK(m.length <= sizeof(o.data), "a message is longer than the largest message");
    std::memcpy(o.data, m.data, m.length);
}
void onMsg(app::reactor::MsgInterface const& m)
{
    auto const id = m.getMsgId();
    CHECK(nOut < 4, "one event causes too many messages");
    if (id == MsgUaOpenSecureChannelRsp::msgId()) secured<MsgUaOpenSecureChannelRsp>(openRsp, m);
    else if (id == MsgUaCloseSecureChannelRsp::msgId()) secured<MsgUaCloseSecureChannelRsp>(closeRsp, m);
    else if (id == MsgUaSecuredMessageSendReq::msgId()) secured<MsgUaSecuredMessageSendReq>(sendReq, m);
    else if (id == MsgUaEncodedMessageReceiveInd::msgId())
    {
        auto const& r = static_cast<MsgUaEncodedMessageReceiveInd const&>(m);
        Out& o = out[nOut++];
        o.kind = fwdInd; o.hdr = r.hdr; o.conn = r.hdr.connectionId; o.ch = r.hdr.secureChannelId; o.len = r.length;
        CHECK(r.length <= sizeof(o.data), "a message is longer than the largest message");
        std::memcpy(o.data, r.data, r.length);
    }
    else if (id == MsgUaConnectionReleaseReq::msgId())
    {
        Out& o = out[nOut++];
        o.kind = releaseReq; o.conn = static_cast<MsgUaConnectionReleaseReq const&>(m).connectionId;
    }
}
struct World
{
    fake::Reactor reactor;
    fake::Sender sender;
    ua::securechannel::UaSecureChannelComponent comp;
    World() : comp((sender.on = onMsg, sender), (R = &reactor, static_cast<app::reactor::ReactorInterface&>(reactor)))
    {
        fake::quiet(LogLevel::LI);
        app::reactor::MsgStore<MsgUaSecureChannelInitReq> i;
        reactor.deliver(i.getMsg());
        app::reactor::MsgStore<MsgUaSecureChannelConfigReq> c;
        reactor.deliver(c.getMsg());
    }
};
World& world() { static char mem[sizeof(World)] __attribute__((aligned(16))); return *new (mem) World; }

struct Chan
{
    bool live = false, hasSession = false;
    uint32_t conn = 0, ch = 0, token = 0, rxSeq = 0, txSeq = 0, session = 0;
};
Chan chan[40];
int nChan = 0;

// reads what was sent, written down from the OPC UA binary encoding
struct Reader
{
    uint8_t const* p; uint32_t n, at = 0;
    uint8_t u8() { CHECK(at < n, "a response is cut off"); return p[at++]; }
    uint32_t u32() { CHECK(at + 4 <= n, "a response is cut off"); at += 4; return le(p + at - 4); }
    void skip(uint32_t k) { CHECK(at + k <= n, "a response is cut off"); at += k; }
    void nullOrEmpty() { uint32_t const l = u32(); CHECK(l == 0 || l == 0xffffffffu, "a response has an unexpected part"); }
    void typeId(unsigned id)
    {
        CHECK(at + 4 <= n, "a response is cut off");
        CHECK(p[at] == 1 && p[at + 1] == 0 && (p[at + 2] | p[at + 3] << 8) == (int)id, "a response is not of the type that belongs to the request");
        at += 4;
    }
    void now() { uint64_t const lo = u32(); CHECK((int64_t)(lo | (uint64_t)u32() << 32) == sys::wallTicks(), "a response does not have the time it was made"); }
    // timestamp, request handle, status good, nothing else
    void header(uint32_t handle)
    {
        now();
        CHECK(u32() == handle, "a response does not have the handle of its request");
        CHECK(u32() == 0, "a request that is served is not reported as good");
        CHECK(u8() == 0, "a response has unexpected diagnostics");
        nullOrEmpty();
        CHECK(u8() == 0 && u8() == 0 && u8() == 0, "a response has an unexpected additional header");
    }
    void done() { CHECK(at == n, "a response has trailing bytes"); }
};
template <class M> struct Mem { app::reactor::MsgStore<M> st; M& m = st.getMsg(); };

// sequence header and content
void checkSeq(Chan& c, Reader& r, uint32_t reqId, bool first)
{
    uint32_t const seq = r.u32();
    if (!first) CHECK(seq == c.txSeq + 1, "sequence numbers do not increase by one");
    c.txSeq = seq;
    CHECK(r.u32() == reqId, "a response does not have the id of its request");
}
void nothing(char const* msg) { CHECK(nOut == 0, msg); }

void mkOpen(Gen& g, uint32_t& seq, uint32_t& reqId, uint32_t& handle, uint32_t& life)
{
    UaSecurityHeader sh; gen(g, sh);
    UaSequenceHeader q; gen(g, q);
    UaOpenSecureChannelReqCont req; gen(g, req);
    seq = q.sequenceNumber; reqId = q.requestId; handle = req.msg.requestHdr.requestHandle; life = req.msg.requestLifetime;
}
void deliverOpen(uint32_t conn, uint8_t const* p, unsigned n)
{
    Mem<MsgUaOpenSecureChannelReq> x;
    x.m.connectionId = conn; x.m.secureChannelId = 0; x.m.chunkType = UaChunkType::fromUint8('F'); x.m.length = n;
    std::memcpy(x.m.data, p, n);
    nOut = 0;
    sys::wall.tv_sec += 86399; sys::wall.tv_usec = (sys::wall.tv_usec + 7) % 1000000;
    fake::guarded([&] { R->deliver(x.m); });
}
int open(uint32_t conn, Gen& g, bool full = false)
{
    uint32_t seq, reqId, handle, life;
    mkOpen(g, seq, reqId, handle, life);
    deliverOpen(conn, g.ref.b, g.ref.n);
    if (full)
    {
        for (int i = 0; i < nOut; ++i) CHECK(out[i].kind == releaseReq && out[i].conn == conn, "a channel is opened although all are in use");
        sym_reach("full");
        return -1;
    }
    CHECK(nOut == 1 && out[0].kind == openRsp, "a request to open a channel is answered once");
    Out& o = out[0];
    CHECK(o.conn == conn, "the answer goes to the connection that asked");
    CHECK(o.chunk == 'F', "an answer is a final chunk");
    for (int i = 0; i < nChan; ++i) CHECK(!chan[i].live || chan[i].ch != o.ch, "two open channels have the same number");
    Chan& c = chan[nChan++];
    c = Chan{};
    c.live = true; c.conn = conn; c.ch = o.ch; c.rxSeq = seq;
    Reader r{o.data, o.len};
    static char const uri[] = "http://opcfoundation.org/UA/SecurityPolicy#None";
    unsigned const ul = sizeof(uri) - 1;
    CHECK(r.u32() == ul && o.len > 60 && !std::memcmp(o.data + 4, uri, ul), "the answer names its security policy");
    r.skip(ul);
    r.nullOrEmpty(); r.nullOrEmpty();
    checkSeq(c, r, reqId, true);
    r.typeId(449);
    r.header(handle);
    CHECK(r.u32() == 0, "the answer names the protocol version");
    CHECK(r.u32() == o.ch, "the token names the channel");
    c.token = r.u32();
    r.now();
    CHECK(r.u32() == life, "the token has the requested lifetime");
    r.nullOrEmpty();
    r.done();
    sym_reach("opened");
    return nChan - 1;
}
int open(uint32_t conn, unsigned base = 0) { Gen g; g.free = false; g.base = base; return open(conn, g); }

// the channel that is addressed, if there is one
Chan* find(uint32_t ch) { for (int i = 0; i < nChan; ++i) if (chan[i].live && chan[i].ch == ch) return &chan[i]; return nullptr; }

void mkHead(Gen& g, uint32_t& token, uint32_t& seq, uint32_t& reqId)
{
    UaSecurityTokenHeader t; gen(g, t);
    UaSequenceHeader q; gen(g, q);
    token = t.tokenId; seq = q.sequenceNumber; reqId = q.requestId;
}
// a message that is not accepted from connection conn on channel c
void refused(Chan* c, uint32_t conn)
{
    if (!c) { nothing("a message to a channel that is not open has an effect"); sym_reach("no-channel"); return; }
    if (c->conn != conn)
    {
        for (int i = 0; i < nOut; ++i) CHECK(out[i].kind == releaseReq && out[i].conn == conn, "a message of another connection has an effect on a channel");
        sym_reach("foreign");
        return;
    }
    CHECK(nOut == 1 && out[0].kind == releaseReq && out[0].conn == conn, "a channel with a wrong message closes its connection and does nothing else");
    c->live = false;
    sym_reach("refused");
}
void receiveMsg(uint32_t conn, uint32_t ch, Gen& g, unsigned head, uint32_t token, uint32_t seq, uint32_t reqId)
{
    Mem<MsgUaSecuredMessageReceiveInd> x;
    x.m.connectionId = conn; x.m.secureChannelId = ch; x.m.chunkType = UaChunkType::fromUint8('F'); x.m.length = g.ref.n;
    std::memcpy(x.m.data, g.ref.b, g.ref.n);
    Chan* c = find(ch);
    nOut = 0;
    fake::guarded([&] { R->deliver(x.m); });
    if (!c || c->conn != conn || head < 12 || token != c->token || seq != c->rxSeq + 1) { refused(c, conn); return; }
    c->rxSeq = seq;
    CHECK(nOut == 1 && out[0].kind == fwdInd, "a message of its connection, with the token of the channel and the next sequence number, is forwarded once");
    Out const& o = out[0];
    CHECK(o.hdr.connectionId == conn && o.hdr.secureChannelId == c->ch, "a message is forwarded with its connection and channel");
    CHECK(o.hdr.requestId == reqId, "a message is forwarded with its request id");
    CHECK(o.hdr.sessionId == (c->hasSession ? c->session : invalidSuid), "a message is forwarded with the session of its channel");
    CHECK(o.len == g.ref.n - 12, "a message is forwarded with all of its content and nothing else");
    for (unsigned i = 0; i < o.len; ++i) CHECK(o.data[i] == g.ref.b[12 + i], "a message is forwarded unchanged");
    sym_reach("forwarded");
}
void receiveMsg(uint32_t conn, uint32_t ch, unsigned payload)
{
    Gen g; g.free = false;
    uint32_t token, seq, reqId;
    mkHead(g, token, seq, reqId);
    if (payload) sym_make(g.ref.b + 12, payload, "payload");
    g.ref.n = 12 + payload;
    receiveMsg(conn, ch, g, 12, token, seq, reqId);
}
void receiveClose(uint32_t conn, uint32_t ch, Gen& g, bool wellFormed, uint32_t token, uint32_t seq, uint32_t reqId, uint32_t handle)
{
    Mem<MsgUaCloseSecureChannelReq> x;
    x.m.connectionId = conn; x.m.secureChannelId = ch; x.m.chunkType = UaChunkType::fromUint8('F'); x.m.length = g.ref.n;
    std::memcpy(x.m.data, g.ref.b, g.ref.n);
    Chan* c = find(ch);
    nOut = 0;
    fake::guarded([&] { R->deliver(x.m); });
    if (!c || c->conn != conn || !wellFormed || token != c->token || seq != c->rxSeq + 1) { refused(c, conn); return; }
    CHECK(nOut == 2 && out[0].kind == closeRsp && out[1].kind == releaseReq, "a channel is closed with one answer, then the end of its connection");
    Out const& o = out[0];
    CHECK(o.conn == conn && o.ch == c->ch && o.chunk == 'F' && out[1].conn == conn, "a channel is closed on its own connection");
    Reader r{o.data, o.len};
    CHECK(r.u32() == c->token, "a message is sent with the token of its channel");
    checkSeq(*c, r, reqId, false);
    r.typeId(455);
    r.header(handle);
    r.done();
    c->live = false;
    sym_reach("closed");
}
void receiveClose(uint32_t conn, uint32_t ch, unsigned base = 0)
{
    Gen g; g.free = false; g.base = base;
    uint32_t token, seq, reqId;
    mkHead(g, token, seq, reqId);
    UaCloseSecureChannelReqCont req; gen(g, req);
    receiveClose(conn, ch, g, true, token, seq, reqId, req.msg.requestHdr.requestHandle);
}
void associate(uint32_t conn, uint32_t ch, uint32_t session)
{
    Mem<MsgUaAssociateSecureChannelReq> x;
    x.m.hdr.connectionId = conn; x.m.hdr.secureChannelId = ch; x.m.hdr.sessionId = session; x.m.hdr.requestId = sym<uint32_t>("reqid");
    nOut = 0;
    Chan* c = find(ch);
    fake::guarded([&] { R->deliver(x.m); });
    nothing("assigning a session to a channel sends something");
    if (c && c->conn == conn) { c->hasSession = true; c->session = session; sym_reach("associated"); }
}
void send(uint32_t conn, uint32_t ch, uint32_t session, unsigned len, bool mayRefuse = false, uint32_t const* id = nullptr)
{
    Mem<MsgUaEncodedMessageSendReq> x;
    uint32_t const reqId = id ? *id : sym<uint32_t>("reqid");
    x.m.hdr.connectionId = conn; x.m.hdr.secureChannelId = ch; x.m.hdr.sessionId = session; x.m.hdr.requestId = reqId;
    x.m.length = len;
    if (len) sym_make(x.m.data, len, "payload");
    nOut = 0;
    Chan* c = find(ch);
    fake::guarded([&] { R->deliver(x.m); });
    if (!c || c->conn != conn || (c->hasSession && c->session != session) || (mayRefuse && !nOut)) { nothing("a message of another connection, channel or session is sent"); sym_reach("not-sent"); return; }
    CHECK(nOut == 1 && out[0].kind == sendReq, "a message is sent once");
    Out const& o = out[0];
    CHECK(o.conn == conn && o.ch == c->ch && o.chunk == 'F', "a message is sent on its connection and channel");
    Reader r{o.data, o.len};
    CHECK(r.u32() == c->token, "a message is sent with the token of its channel");
    checkSeq(*c, r, reqId, false);
    CHECK(o.len == len + 12, "a message is sent with all of its content and nothing else");
    for (unsigned i = 0; i < len; ++i) CHECK(o.data[12 + i] == x.m.data[i], "a message is sent unchanged");
    sym_reach("sent");
}
void released(uint32_t conn, uint32_t ch)
{
    Mem<MsgUaConnectionReleaseInd> x;
    x.m.connectionId = conn; x.m.secureChannelId = ch;
    nOut = 0;
    Chan* c = find(ch);
    fake::guarded([&] { R->deliver(x.m); });
    nothing("the end of a connection sends something");
    if (c && c->conn == conn) { c->live = false; sym_reach("released"); }
}
// a channel number that is in use, was in use, or is anything else
uint32_t someChannel()
{
    unsigned const k = choose("channel", nChan + 1);
    if (k < (unsigned)nChan) return chan[k].ch;
    uint32_t const v = sym<uint32_t>("number");
    for (int i = 0; i < nChan; ++i) ASSUME(v != chan[i].ch);
    ASSUME(v == 0 || v > 31 || v == 9);
    return v;
}
uint32_t someConn() { return sym<uint32_t>("conn"); }
}

namespace
{
// anything happens, steps times
void events(int steps)
{
    for (int s = 0; s < steps; ++s)
    {
        switch (choose("event", 6))
        {
        case 0:
            if (nChan >= 2) sym_end_path();
            open(someConn());
            break;
        case 1: { uint32_t const ch = someChannel(); receiveMsg(someConn(), ch, 2); break; }
        case 2: { uint32_t const ch = someChannel(); receiveClose(someConn(), ch); break; }
        case 3: { uint32_t const ch = someChannel(); associate(someConn(), ch, sym<uint32_t>("session")); break; }
        case 4: { uint32_t const ch = someChannel(); send(someConn(), ch, sym<uint32_t>("session"), 2); break; }
        case 5: { uint32_t const ch = someChannel(); released(someConn(), ch); break; }
        }
    }
}
}
extern "C" void h_uas_history()
{
    world();
    open(someConn());
    if (chooseBool("two")) open(someConn());
    if (chooseBool("session")) associate(chan[0].conn, chan[0].ch, sym<uint32_t>("session"));
    events(THOROUGH ? 4 : 3);
    sym_trace(nOut);
}
// a channel is not affected by what an earlier one with its number did, however that one ended
extern "C" void h_uas_second()
{
    world();
    uint32_t const first = someConn();
    open(first);
    uint32_t const ch = chan[0].ch;
    if (chooseBool("session")) associate(first, ch, sym<uint32_t>("session"));
    if (chooseBool("used")) send(first, ch, chan[0].session, 1);
    switch (choose("way", 3))
    {
    case 0: released(first, ch); break;
    case 1: receiveClose(first, ch); break;
    default: receiveMsg(first, ch, 2); break;
    }
    if (chan[0].live) sym_end_path();
    for (uint32_t i = 0; i < 31; ++i)
    {
        nChan = 0;
        Gen g; g.free = false; g.concrete = true; g.seed = (uint8_t)i;
        open(i, g);
        released(chan[0].conn, chan[0].ch);
    }
    nChan = 0;
    open(someConn());
    events(THOROUGH ? 2 : 1);
    if (chan[0].live) { receiveMsg(chan[0].conn, chan[0].ch, 1); send(chan[0].conn, chan[0].ch, sym<uint32_t>("session"), 1); }
    sym_reach("second");
}
// requests of every structure, truncated requests
extern "C" void h_uas_open()
{
    world();
    Gen g; g.free = false; g.base = choose("base", 2); g.pick = choose("pick", 24);
    if (THOROUGH) g.pick2 = choose("pick2", 24);
    uint32_t const conn = someConn();
    open(conn, g);
    receiveMsg(conn, chan[0].ch, 3);
}
// one long text in any place, with all messages logged
extern "C" void h_uas_long()
{
    world();
    fake::quiet(LogLevel::LD);
    uint32_t const conn = someConn();
    bool const cl = chooseBool("close");
    if (cl) open(conn);
    Gen g; g.free = false; g.base = choose("base", 2); g.longAt = choose("which", 10); g.longLen = longText();
    if (!cl)
    {
        Gen t = g;
        uint32_t seq, reqId, handle, life;
        mkOpen(t, seq, reqId, handle, life);
        if (t.strs <= t.longAt) sym_end_path();
        open(conn, g);
    }
    else
    {
        uint32_t token, seq, reqId;
        mkHead(g, token, seq, reqId);
        UaCloseSecureChannelReqCont req; gen(g, req);
        if (g.strs <= g.longAt) sym_end_path();
        receiveClose(conn, chan[0].ch, g, true, token, seq, reqId, req.msg.requestHdr.requestHandle);
    }
    receiveMsg(conn, chan[0].ch, 3);
    sym_reach("long");
}
extern "C" void h_uas_close()
{
    world();
    uint32_t const conn = someConn();
    open(conn);
    Gen g; g.free = false; g.base = choose("base", 2); g.pick = choose("pick", 24);
    uint32_t token, seq, reqId;
    mkHead(g, token, seq, reqId);
    UaCloseSecureChannelReqCont req; gen(g, req);
    receiveClose(conn, chan[0].ch, g, true, token, seq, reqId, req.msg.requestHdr.requestHandle);
    receiveMsg(conn, chan[0].ch, 3);
}
extern "C" void h_uas_truncated()
{
    world();
    uint32_t const conn = someConn();
    unsigned const kind = choose("kind", 3);
    if (kind == 0)
    {
        Gen g; g.free = false; g.base = choose("base", 2);
        uint32_t a, b, c, d;
        mkOpen(g, a, b, c, d);
        unsigned const cut = choose("cut", g.ref.n < 256 ? g.ref.n : 256);
        deliverOpen(conn, g.ref.b, cut);
        CHECK(nOut == 1 && out[0].kind == releaseReq && out[0].conn == conn, "a malformed request to open a channel ends its connection");
        sym_reach("malformed");
    }
    else
    {
        open(conn);
        Gen g; g.free = false; g.base = choose("base", 2);
        uint32_t token, seq, reqId;
        mkHead(g, token, seq, reqId);
        if (kind == 1)
        {
            unsigned const cut = choose("cut", 12);
            g.ref.n = cut;
            receiveMsg(conn, chan[0].ch, g, cut, token, seq, reqId);
        }
        else
        {
            UaCloseSecureChannelReqCont req; gen(g, req);
            g.ref.n = choose("cut", g.ref.n);
            receiveClose(conn, chan[0].ch, g, false, token, seq, reqId, req.msg.requestHdr.requestHandle);
        }
    }
    open(conn);
}
extern "C" void h_uas_sizes()
{
    world();
    uint32_t const conn = someConn();
    open(conn);
    if (chooseBool("session")) associate(conn, chan[0].ch, sym<uint32_t>("session"));
    static unsigned const ls[] = {0, 1, 3, 100, 243, 244, 255, 256, 1000, 1023, 1024, 1500, 2048, 4000, 4020};
    unsigned const x = choose("len", THOROUGH ? 60 : 39);
    unsigned const lim = reactor::maxMsgSize - (unsigned)sizeof(MsgUaSecuredMessageReceiveInd) - 12;
    unsigned const limTx = reactor::maxMsgSize - (unsigned)sizeof(MsgUaEncodedMessageSendReq);
    if (chooseBool("rx"))
    {
        unsigned const n = x < 15 ? ls[x] : lim - (x - 15);
        receiveMsg(conn, chan[0].ch, n);
    }
    else
    {
        unsigned const n = x < 15 ? ls[x] : limTx - (x - 15);
        send(conn, chan[0].ch, chan[0].session, n, n > 4030);
        send(conn, chan[0].ch, chan[0].session, 1);
    }
}
// channels that ended can be used again, as new ones
extern "C" void h_uas_reuse()
{
    world();
    unsigned const kind = choose("kind", 7);
    bool const session = chooseBool("session");
    uint64_t heap = 0;
    for (uint32_t i = 0; i < 300; ++i)
    {
        nChan = 0;
        if (i == 100) heap = sym_live_heap();
        Gen g; g.free = false; g.concrete = true; g.seed = (uint8_t)i;
        if (kind == 6)
        {
            uint32_t a, b, c, d;
            mkOpen(g, a, b, c, d);
            deliverOpen(i, g.ref.b, g.ref.n - 1);
            CHECK(nOut == 1 && out[0].kind == releaseReq && out[0].conn == i, "a malformed request to open a channel ends its connection");
            continue;
        }
        open(i, g);
        Chan& c = chan[0];
        if (session) associate(c.conn, c.ch, 5);
        Gen m; m.free = false; m.concrete = true;
        m.ref.le(c.token, 4); m.ref.le(c.rxSeq + 1, 4); m.ref.le(7, 4);
        if (kind == 0) released(c.conn, c.ch);
        else if (kind == 1)
        {
            UaCloseSecureChannelReqCont req; gen(m, req);
            receiveClose(c.conn, c.ch, m, true, c.token, c.rxSeq + 1, 7, req.msg.requestHdr.requestHandle);
        }
        else if (kind == 2) { m.ref.b[0] ^= 1; receiveMsg(c.conn, c.ch, m, 12, c.token ^ 1, c.rxSeq + 1, 7); }
        else if (kind == 3) { m.ref.n = 9; receiveMsg(c.conn, c.ch, m, 9, c.token, c.rxSeq + 1, 7); }
        else if (kind == 4) { receiveClose(c.conn, c.ch, m, false, c.token, c.rxSeq + 1, 7, 0); }
        else { m.ref.b[4] ^= 4; receiveMsg(c.conn, c.ch, m, 12, c.token, c.rxSeq ^ 4, 7); }
        CHECK(!c.live, "a channel does not end");
    }
    CHECK(sym_live_heap() <= heap, "channels that ended take up memory");
    nChan = 0;
    uint32_t const conn = someConn();
    open(conn);
    receiveMsg(conn, chan[0].ch, 3);
    sym_reach("reused");
}
// a channel serves as many messages as it is asked to
extern "C" void h_uas_many()
{
    world();
    Gen g; g.free = false; g.concrete = true;
    open(3, g);
    Chan& c = chan[0];
    uint64_t heap = 0;
    for (uint32_t i = 0; i < MANY; ++i)
    {
        if (i == 100) heap = sym_live_heap();
        static Gen m; m.free = false; m.concrete = true; m.ref.n = 0;
        m.ref.le(c.token, 4); m.ref.le(c.rxSeq + 1, 4); m.ref.le(i, 4);
        receiveMsg(c.conn, c.ch, m, 12, c.token, c.rxSeq + 1, i);
        send(c.conn, c.ch, invalidSuid, 0, false, &i);
    }
    CHECK(sym_live_heap() <= heap, "memory is lost with every message");
    receiveMsg(c.conn, c.ch, 2);
    sym_reach("many");
}
extern "C" void h_uas_full()
{
    world();
    for (uint32_t i = 0; i < 32; ++i) { Gen g; g.free = false; g.concrete = true; g.seed = (uint8_t)i; open(i + 1, g); }
    Gen g; g.free = false; g.concrete = true;
    open(99, g, true);
    unsigned const a = choose("first", 32);
    released(a + 1, chan[a].ch);
    Gen g2; g2.free = false;
    int const n = open(77, g2);
    CHECK(chan[n].ch == chan[a].ch, "a channel that ended is not available again");
    Gen g3; g3.free = false; g3.concrete = true;
    open(98, g3, true);
    unsigned const b = choose("other", 32);
    if (b != a) receiveMsg(b + 1, chan[b].ch, 2);
}
