// The OPC UA connection library (client, server and reverse-connecting server), driven through its interface.
#include "fake.h"
#include "ClientConnection.hpp"
#include "ServerConnection.hpp"
#include <new>
using namespace app;
using fake::LinkEvent;
using app::reactor::LinkResult;

// limits in a Hello or Acknowledge: both buffers, the message size and the number of chunks (0: no limit)
static bool sensible(uint8_t const* w)
{
    auto le = [w](unsigned o) { return (uint32_t)w[o] | (uint32_t)w[o + 1] << 8 | (uint32_t)w[o + 2] << 16 | (uint32_t)w[o + 3] << 24; };
    uint32_t const r = le(12), s = le(16), m = le(20), c = le(24);
    return r >= 8192 && r <= (1u << 20) && s >= 8192 && s <= (1u << 20) && (m == 0 || (m >= 8192 && m <= (1u << 30))) && c <= (1u << 16);
}
namespace
{
fake::Reactor* R;
uint32_t le(uint8_t const* p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
void putLe(uint8_t* p, uint32_t v) { p[0] = (uint8_t)v; p[1] = (uint8_t)(v >> 8); p[2] = (uint8_t)(v >> 16); p[3] = (uint8_t)(v >> 24); }

struct Handler : ua::OpcUaConnectionHandler
{
    int connected = 0, data = 0, error = 0, closed = 0;
    bool closeOnConnected = false, closeOnData = false, closeOnError = false;
    unsigned len = 0;
    uint8_t msg[4200];
    void onConnectionConnectedEvent() override;
    void onConnectionDataReceivedEvent() override;
    void onConnectionErrorEvent() override;
    void onConnectionClosedEvent() override;
} H;
enum Kind { client, accepting, reverse };
struct World
{
    fake::Reactor reactor;
    ua::ClientConnection cl;
    ua::ServerConnection sv;
    World() : cl((R = &reactor, reactor), H), sv(reactor, H) {}
};
World* W;
Kind kind;
ua::OpcUaConnection& base() { return kind == client ? static_cast<ua::OpcUaConnection&>(W->cl) : W->sv; }
void userClose() { if (kind == client) W->cl.close(); else W->sv.close(); }
void Handler::onConnectionConnectedEvent() { ++connected; if (closeOnConnected) userClose(); }
void Handler::onConnectionDataReceivedEvent()
{
    ++data;
    ua::OpcUaSduBuffer& b = base().getRxBuffer();
    len = b.size();
    CHECK(len <= sizeof(msg), "a message longer than the buffer is reported");
    std::memcpy(msg, b.begin(), len);
    if (closeOnData) userClose();
}
void Handler::onConnectionErrorEvent() { ++error; if (closeOnError) userClose(); }
void Handler::onConnectionClosedEvent() { ++closed; }

bool faultSend = false;
bool sendOk(fake::Link&) { return !(faultSend && chooseBool("sendfail")); }
int failAt = 0;                       // 1: no timer, 2: no link, 3: connect refused
bool timerOk() { return failAt != 1; }
bool linkOk() { return failAt != 2; }
bool connectOk(fake::Link&) { return failAt != 3; }

enum St { idle, connecting, shaking, open } st = idle;
bool broken = false;                  // the link reported an error; the connection ends with its timer at the latest
fake::Link* lnk; fake::Timer* timer;
unsigned acc = 0;                     // bytes of the current message received so far
uint8_t cur[4300];

World& world(Kind k)
{
    static char mem[sizeof(World)] __attribute__((aligned(16)));
    fake::quiet(LogLevel::LI);
    kind = k;
    W = new (mem) World;
    for (auto& l : R->links) { l.sendOk = sendOk; l.connectOk = connectOk; }
    R->timerOk = timerOk; R->linkOk = linkOk;
    return *W;
}
void find()
{
    lnk = nullptr; timer = nullptr;
    for (auto& l : R->links) if (l.live) lnk = &l;
    for (auto& t : R->timers) if (t.live) timer = &t;
}
void isIdle(char const* what) { CHECK(R->nLinksLive == 0 && R->nTimersLive == 0, what); st = idle; broken = false; acc = 0; }
void isBusy()
{
    CHECK(R->nLinksLive == 1 && R->nTimersLive == 1 && lnk->live && timer->live, "a connection is given up without reason");
    CHECK(timer->armed, "a connection is not supervised by a timer");
}
struct Seen { int connected, data, error, closed, sends; };
Seen seen() { return {H.connected, H.data, H.error, H.closed, lnk ? lnk->nSend : 0}; }
int reports(Seen const& b) { return H.error + H.closed - b.error - b.closed; }
void nothing(Seen const& b) { CHECK(H.connected == b.connected && H.data == b.data && reports(b) == 0, "something is reported without reason"); }
// the connection has to have ended with exactly one report
void ended(Seen const& b, char const* what)
{
    CHECK(H.connected == b.connected && H.data == b.data, "a failed connection is reported as working");
    CHECK(reports(b) == 1, "the end of a connection is reported exactly once");
    isIdle(what);
}

bool start(int fail)
{
    failAt = fail;
    lnk = nullptr; timer = nullptr;
    Seen const b = seen();
    bool ok = true;
    if (kind == accepting)
    {
        int const f = failAt; failAt = 0;
        app::reactor::LinkPtr l = R->createLink([](LinkEvent) {});
        failAt = f == 1 ? 1 : 0;
        for (auto& x : R->links) if (x.live) { x.st = fake::Link::connected; x.fd = 7; }
        ok = fake::guarded([&] { W->sv.accept(l); });
        failAt = 0;
        if (f == 1)
        {
            l.reset();
            if (ok) CHECK(reports(b) == 1, "a connection that can not be accepted is neither refused nor reported");
            isIdle("a connection that can not be accepted keeps its link or timer");
            sym_reach("start-failed");
            return false;
        }
        CHECK(ok, "a connection is not accepted");
        find();
        nothing(b);
        isBusy();
        CHECK(lnk->nSend == 0, "a server speaks first");
        st = shaking; acc = 0;
        return true;
    }
    app::reactor::LinkAddr a{app::reactor::LinkAddr::Type::ipv4, {}};
    sym_make(a.data, 6, "addr");
    ok = fake::guarded([&] { if (kind == client) W->cl.connect(a); else W->sv.connect(a); });
    failAt = 0;
    if (fail)
    {
        CHECK(H.connected == b.connected && H.data == b.data, "a failed connection is reported as working");
        CHECK(reports(b) == (ok ? 1 : 0), "a connection that can not be set up is refused or reported once");
        isIdle("a connection that can not be set up keeps its link or timer");
        sym_reach("start-failed");
        return false;
    }
    CHECK(ok, "connecting is refused");
    find();
    nothing(b);
    isBusy();
    CHECK(lnk->st == fake::Link::connecting && !std::memcmp(lnk->addr.data, a.data, 6), "the connection is opened to the given address");
    CHECK(lnk->nSend == 0, "something is sent before the connection is established");
    st = connecting;
    return true;
}
bool str(uint8_t const* w, unsigned n, unsigned& at)
{
    if (at + 4 > n) return false;
    uint32_t const l = le(w + at);
    at += 4;
    if (l == 0xffffffffu) return true;
    if (l > n - at) return false;
    at += l;
    return true;
}
void up()
{
    Seen const b = seen();
    lnk->st = fake::Link::connected;
    fake::guarded([&] { lnk->event(LinkEvent::connected); });
    if (lnk->nSend == b.sends)
    {
        CHECK(faultSend, "the first message is not sent when the connection is established");
        ended(b, "a connection that can not send keeps its link or timer");
        sym_reach("hello-failed");
        return;
    }
    nothing(b);
    isBusy();
    uint8_t const* w = lnk->tx;
    unsigned const n = lnk->txLen;
    CHECK(lnk->nSend == b.sends + 1 && n >= 16 && le(w + 4) == n && w[3] == 'F', "exactly one complete first message is sent");
    if (kind == client)
    {
        CHECK(!std::memcmp(w, "HEL", 3) && le(w + 8) == 0 && n >= 32 && sensible(w), "a client begins with a well-formed Hello");
        unsigned at = 28;
        CHECK(str(w, n, at) && at == n, "a client begins with a well-formed Hello");
    }
    else
    {
        unsigned at = 8;
        bool const two = str(w, n, at) && str(w, n, at);
        CHECK(!std::memcmp(w, "RHE", 3) && two && at == n, "a reverse connection begins with a well-formed ReverseHello");
    }
    st = shaking; acc = 0;
    sym_reach("hello");
}
enum Verdict { incomplete, good, bad, either };
Verdict judge()
{
    if (acc < 8) return incomplete;
    uint32_t const n = le(cur + 4);
    if (n > 4096) return bad;
    if (acc < n) return incomplete;
    if (acc > n) return bad;
    if (st == open) return good;
    if (kind == client)
    {
        if (std::memcmp(cur, "ACK", 3) || n < 28) return bad;
        return n == 28 && cur[3] == 'F' ? good : either;
    }
    if (std::memcmp(cur, "HEL", 3) || n < 32) return bad;
    uint32_t const l = le(cur + 28);
    if (l != 0xffffffffu && l > n - 32) return bad;
    return cur[3] == 'F' && (l == 0xffffffffu ? n == 32 : l == n - 32) ? good : either;
}
// n bytes arrive
void data(uint8_t const* p, unsigned n, bool last = true)
{
    Seen const b = seen();
    std::memcpy(cur + acc, p, n);
    acc += n;
    Verdict v = judge();
    lnk->rx = p; lnk->rxLen = n; lnk->rxStatus = LinkResult::ok;
    fake::guarded([&] { lnk->event(LinkEvent::data); });
    lnk->rxStatus = LinkResult::na;
    int const sent = lnk->nSend - b.sends;
    if (v == either) v = reports(b) ? bad : good;
    if (v == incomplete)
    {
        nothing(b);
        CHECK(sent == 0, "something is sent without reason");
        isBusy();
        sym_reach("incomplete");
        return;
    }
    if (v == bad)
    {
        CHECK(sent == 0, "a malformed message is answered");
        ended(b, "a connection that received a malformed message keeps its link or timer");
        sym_reach("malformed");
        return;
    }
    lnk->rxLen = 0;
    if (st == shaking)
    {
        if (kind == client) CHECK(sent == 0, "an Acknowledge is answered");
        else
        {
            if (!sent)
            {
                CHECK(faultSend, "a Hello is not acknowledged");
                ended(b, "a connection that can not send keeps its link or timer");
                sym_reach("ack-failed");
                return;
            }
            uint8_t const* w = lnk->tx;
            CHECK(sent == 1 && lnk->txLen == 28 && !std::memcmp(w, "ACKF", 4) && le(w + 4) == 28 && le(w + 8) == 0, "a Hello is answered with one well-formed Acknowledge");
            CHECK(sensible(w), "the limits an Acknowledge announces are those of OPC UA");
        }
        CHECK(H.connected == b.connected + 1 && H.data == b.data && reports(b) == 0, "an established connection is reported exactly once");
        if (H.closeOnConnected) { isIdle("a connection closed by its user keeps its link or timer"); sym_reach("closed-at-once"); return; }
        isBusy();
        st = open; acc = 0;
        sym_reach("open");
        return;
    }
    CHECK(sent == 0, "something is sent without reason");
    CHECK(H.connected == b.connected && reports(b) == 0, "something is reported without reason");
    CHECK(H.data == b.data + 1 && H.len == acc, "a complete message is reported once, with all of its bytes");
    for (unsigned i = 0; i < acc; ++i) CHECK(H.msg[i] == cur[i], "a message is reported unchanged");
    acc = 0;
    if (H.closeOnData) { isIdle("a connection closed by its user keeps its link or timer"); sym_reach("closed-in-data"); return; }
    isBusy();
    sym_reach("message");
}
void lost(int s)
{
    Seen const b = seen();
    lnk->rxStatus = s;
    fake::guarded([&] { lnk->event(LinkEvent::data); });
    CHECK(lnk->nSend == b.sends, "something is sent on a lost connection");
    ended(b, "a lost connection keeps its link or timer");
    sym_reach("lost");
}
void fire()
{
    Seen const b = seen();
    fake::guarded([&] { timer->fire(); });
    CHECK(lnk->nSend == b.sends, "a timeout sends something");
    ended(b, "a connection that timed out keeps its link or timer");
    sym_reach("timeout");
}
void linkError()
{
    Seen const b = seen();
    lnk->close();
    fake::guarded([&] { lnk->event(LinkEvent::error); });
    CHECK(lnk->nSend == b.sends, "something is sent on a broken connection");
    if (st == connecting || !lnk->live) { ended(b, "a broken connection keeps its link or timer"); sym_reach("refused"); return; }
    nothing(b);
    isBusy();
    broken = true;
    sym_reach("broken");
}
void userSend(unsigned n)
{
    ua::OpcUaSduBuffer tx;
    uint8_t d[40];
    sym_make(d, n, "tx");
    for (unsigned i = 0; i < n; ++i) tx.write(d[i]);
    Seen const b = seen();
    ua::OpcUaConnection::Result r = ua::OpcUaConnection::Result::noerror;
    CHECK(fake::guarded([&] { r = base().send(tx); }), "sending throws");
    nothing(b);
    if (st != open || broken) { CHECK(r == ua::OpcUaConnection::Result::error || st == connecting || st == shaking, "sending without a connection succeeds"); sym_reach("not-connected"); return; }
    int const sent = lnk->nSend - b.sends;
    CHECK((sent == 1) == (r == ua::OpcUaConnection::Result::done), "sending reports what happened");
    if (!sent) { CHECK(faultSend, "a message is not sent"); CHECK(r == ua::OpcUaConnection::Result::error, "sending reports what happened"); return; }
    CHECK(lnk->txLen == n && !std::memcmp(lnk->tx, d, n), "a message is sent once and unchanged");
    sym_reach("sent");
}
uint8_t buf[10][4300];
int nb = 0;
uint8_t* fresh() { return buf[nb++]; }
// a well-formed answer of the peer to the first message
unsigned handshake(uint8_t* w, unsigned url = 0)
{
    unsigned const n = kind == client ? 28 : 32 + url;
    sym_make(w, n, "handshake");
    std::memcpy(w, kind == client ? "ACKF" : "HELF", 4);
    putLe(w + 4, n);
    if (kind != client) putLe(w + 28, url);
    return n;
}
void establish()
{
    start(0);
    if (kind != accepting) up();
    uint8_t* w = fresh();
    data(w, handshake(w));
    CHECK(st == open, "a connection is not established");
}
}

extern "C" void h_uac_history()
{
    world((Kind)choose("kind", 3));
    faultSend = true;
    int const steps = THOROUGH ? 8 : 7;
    H.closeOnConnected = chooseBool("closeOnConnected");
    for (int s = 0; s < steps; ++s)
    {
        if (nb >= 9) sym_end_path();
        if (st == idle)
        {
            if (s && !chooseBool("again")) { userSend(3); CHECK(R->nLinksLive == 0 && R->nTimersLive == 0, "sending without a connection takes resources"); break; }
            start((int)choose("startfail", kind == accepting ? 2 : 4));
            continue;
        }
        switch (choose("event", 8))
        {
        case 0:
            if (st != connecting) sym_end_path();
            up();
            break;
        case 1:
        {
            if (st == connecting || broken) sym_end_path();
            uint8_t* w = fresh();
            if (st == shaking && !acc && chooseBool("wellformed")) { data(w, handshake(w, kind == client ? 0 : 2)); break; }
            unsigned const n = choose("long", 2) ? 12 : 5;
            sym_make(w, n, "bytes");
            data(w, n);
            break;
        }
        case 2:
            if (st == connecting || broken) sym_end_path();
            lost(chooseBool("peer") ? LinkResult::closed : LinkResult::error);
            break;
        case 3:
            fire();
            break;
        case 4:
            if (broken) sym_end_path();
            linkError();
            break;
        case 5:
            if (st != open) sym_end_path();
            {
                Seen const b = seen();
                fake::guarded(userClose);
                CHECK(H.connected == b.connected && H.data == b.data && H.error == b.error, "closing is reported as something else");
                isIdle("a connection closed by its user keeps its link or timer");
                sym_reach("closed");
            }
            break;
        case 6:
            if (st != open) sym_end_path();
            userSend(5);
            break;
        case 7:
            if (st == connecting || broken) sym_end_path();
            {
                Seen const b = seen();
                lnk->rxLen = 0; lnk->rxStatus = LinkResult::na;
                fake::guarded([&] { lnk->event(LinkEvent::data); });
                nothing(b);
                isBusy();
            }
            break;
        }
    }
    sym_trace((uint64_t)H.connected << 32 | H.error << 16 | H.closed << 8 | H.data);
}
// arbitrary bytes, as the first message or on an open connection
extern "C" void h_uac_junk()
{
    world((Kind)choose("kind", 3));
    H.closeOnError = chooseBool("closeOnError");
    bool const o = chooseBool("open");
    if (o) establish();
    else { start(0); if (kind != accepting) up(); }
    unsigned const n = choose("n", o ? (THOROUGH ? 25 : 17) : (THOROUGH ? 45 : 37));
    if (!n) return;
    uint8_t* w = fresh();
    sym_make(w, n, "bytes");
    data(w, n);
    if (st != idle && o)
    {
        unsigned const m = 1 + choose("m", 4);
        uint8_t* v = fresh();
        sym_make(v, m, "more");
        data(v, m);
    }
    sym_trace((uint64_t)H.connected << 32 | H.error << 16 | H.closed << 8 | H.data);
}
// handshake and two messages in pieces
extern "C" void h_uac_segments()
{
    world((Kind)choose("kind", 3));
    start(0);
    if (kind != accepting) up();
    bool const first = chooseBool("first");          // the handshake or the messages are cut
    int const pieces = first ? (THOROUGH ? 4 : 3) : 1;
    uint8_t* w = fresh();
    unsigned n = handshake(w, kind == client ? 0 : 3), at = 0;
    for (int p = 0; p < pieces && at < n; ++p)
    {
        unsigned const k = p == pieces - 1 ? n - at : 1 + choose("cut", n - at);
        data(w + at, k);
        at += k;
    }
    CHECK(st == open, "a connection is not established");
    for (int m = 0; m < 2; ++m)
    {
        w = fresh(); at = 0;
        n = m ? 9 : (THOROUGH ? 14 : 11);
        sym_make(w, n, "message");
        putLe(w + 4, n);
        int const mp = first ? 1 + m : m ? 2 : (THOROUGH ? 5 : 4);
        for (int p = 0; p < mp && at < n; ++p)
        {
            unsigned const k = p == mp - 1 ? n - at : 1 + choose("cut", n - at);
            data(w + at, k);
            at += k;
        }
    }
    sym_reach("all");
    sym_trace(H.data);
}
// long messages, whole and in pieces
// a Hello with a long address, at once or in two pieces, with all messages logged
extern "C" void h_uac_hello()
{
    world(chooseBool("reverse") ? reverse : accepting);
    fake::quiet(LogLevel::LD);
    start(0);
    if (kind != accepting) up();
    static unsigned const ls[] = {0, 1, 100, 127, 128, 255, 256, 990, 1024, 2000, 3000, 3960};
    unsigned const url = ls[choose("url", 12)];
    uint8_t* w = fresh();
    unsigned const n = handshake(w) + url;
    putLe(w + 4, n); putLe(w + 28, url);
    for (unsigned i = 0; i < url; ++i) w[32 + i] = (uint8_t)('A' + i % 26);
    unsigned const cut = choose("cut", 4);
    unsigned const at = cut == 0 ? 0 : cut == 1 ? 31 : cut == 2 ? 32 + url / 2 : n - 1;
    if (at && at < n) data(w, at);
    data(w + (at < n ? at : 0), n - (at < n ? at : 0));
    CHECK(st == open, "a connection is not established");
    uint8_t* v = fresh();
    sym_make(v, 20, "message"); putLe(v + 4, 20);
    data(v, 20);
    sym_reach("long");
}
extern "C" void h_uac_sizes()
{
    world((Kind)choose("kind", 3));
    establish();
    static unsigned const ls[] = {8, 9, 255, 256, 1023, 1024, 1025, 2000, 4095, 4096};
    for (int m = 0; m < 2; ++m)
    {
        unsigned const n = m ? 20 : ls[choose("size", 10)];
        uint8_t* w = fresh();
        sym_make(w, n, "message");
        putLe(w + 4, n);
        unsigned at = 0;
        if (!m && n > 20)
        {
            unsigned const cuts[] = {0, 7, 8, n / 2, n - 1, 1025};
            unsigned const a = cuts[choose("cut", 6)];
            if (a && a < n) { data(w, a); at = a; }
            unsigned const c = cuts[choose("cut2", 6)];
            if (c > at && c < n) { data(w + at, c - at); at = c; }
        }
        data(w + at, n - at);
    }
    sym_reach("all");
}
// a message cut off by the end of a connection does not affect the next connection; nothing is used up
extern "C" void h_uac_reuse()
{
    world((Kind)choose("kind", 3));
    unsigned const how = choose("how", 6);
    uint64_t heap = 0;
    uint8_t* w = fresh(); uint8_t* v = fresh(); uint8_t* m = fresh();
    for (int i = 0; i < 300; ++i)
    {
        start(0);
        if (kind != accepting) up();
        unsigned n;
        if (how == 0) { std::memcpy(w, "HELF\x08\0\0\0", 8); data(w, 8); }
        else if (how == 1) { data(reinterpret_cast<uint8_t const*>("HELF\xff"), 5); fire(); }
        else
        {
            n = handshake(v); data(v, n);
            CHECK(st == open, "a connection is not established");
            sym_make(m, 10, "message"); putLe(m + 4, 10);
            data(m, 10);
            if (how != 2) { sym_make(m, 6, "part"); data(m, 6); }
            if (how == 2) { H.closeOnData = true; sym_make(m, 10, "message"); putLe(m + 4, 10); data(m, 10); H.closeOnData = false; }
            if (how == 3) lost(LinkResult::closed);
            if (how == 4) fire();
            if (how == 5) { fake::guarded(userClose); isIdle("a connection closed by its user keeps its link or timer"); }
        }
        CHECK(st == idle, "a connection did not end");
        if (i == 20) heap = sym_live_heap();
    }
    CHECK(sym_live_heap() <= heap, "connections take up memory for ever");
    sym_reach("reused");
}
