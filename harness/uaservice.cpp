// OPC UA services (discovery, sessions, attributes), driven through their component.
#include "fake.h"
#define CLOCK_IMPL
#include "clock.h"
#include "uacodec.h"
#include "UaService.hpp"
#include "UaServiceComponent.hpp"
#include "MsgUaEncodedMessageReceiveInd.hpp"
#include "MsgUaEncodedMessageSendReq.hpp"
#include "MsgUaAssociateSecureChannelReq.hpp"
#include "MsgStore.hpp"
#include <new>
using namespace app;
using namespace app::ua;

namespace
{
fake::Reactor* R;
uint32_t le(uint8_t const* p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
struct Out { UaEncodedMessageHdr hdr; uint32_t len; uint8_t data[4096]; } rsp;
UaEncodedMessageHdr assoc;
int nRsp = 0, nAssoc = 0, nOther = 0;
bool same(UaEncodedMessageHdr const& a, UaEncodedMessageHdr const& b)
{
    return a.connectionId == b.connectionId && a.secureChannelId == b.secureChannelId && a.requestId == b.requestId && a.sessionId == b.sessionId;
}
void onMsg(app::reactor::MsgInterface const& m)
{
    auto const id = m.getMsgId();
    if (id == MsgUaEncodedMessageSendReq::msgId())
    {
        auto const& r = static_cast<MsgUaEncodedMessageSendReq const&>(m);
        ++nRsp; rsp.hdr = r.hdr; rsp.len = r.length;
        CHECK(r.length <= sizeof(rsp.data), "a response is longer than the largest message");
        std::memcpy(rsp.data, r.data, r.length);
    }
    else if (id == MsgUaAssociateSecureChannelReq::msgId()) { ++nAssoc; assoc = static_cast<MsgUaAssociateSecureChannelReq const&>(m).hdr; }
    else ++nOther;
}
struct World
{
    fake::Reactor reactor;
    fake::Sender sender;
    ua::service::UaServiceComponent comp;
    World() : comp((sender.on = onMsg, sender), (R = &reactor, static_cast<app::reactor::ReactorInterface&>(reactor)))
    {
        fake::quiet(LogLevel::LI);
        app::reactor::MsgStore<MsgUaServiceInitReq> i;
        reactor.deliver(i.getMsg());
        app::reactor::MsgStore<MsgUaServiceConfigReq> c;
        reactor.deliver(c.getMsg());
        nOther = 0;
    }
};
World& world() { static char mem[sizeof(World)] __attribute__((aligned(16))); return *new (mem) World; }

struct Session { bool live = false, active = false; uint32_t token = 0, id = 0, ch = 0; };
Session ses[40];
int nSes = 0;

struct Reader
{
    uint8_t const* p; uint32_t n, at = 0;
    uint8_t u8() { CHECK(at < n, "a response is cut off"); return p[at++]; }
    uint32_t u16() { uint32_t const a = u8(); return a | (uint32_t)u8() << 8; }
    uint32_t u32() { CHECK(at + 4 <= n, "a response is cut off"); at += 4; return le(p + at - 4); }
    void skip(uint32_t k) { CHECK(k <= n && at + k <= n, "a response is cut off"); at += k; }
    bool nullOrEmpty() { uint32_t const l = u32(); return l == 0 || l == 0xffffffffu; }
    uint32_t str() { uint32_t const l = u32(); if (l != 0xffffffffu) skip(l); return l == 0xffffffffu ? 0 : l; }
    bool strIs(char const* s)
    {
        uint32_t const l = u32(), k = (uint32_t)std::strlen(s);
        if (l != k) return false;
        skip(l);
        return !std::memcmp(p + at - l, s, l);
    }
    void typeId(unsigned id)
    {
        CHECK(at + 4 <= n, "a response is cut off");
        CHECK(p[at] == 1 && p[at + 1] == 0 && (p[at + 2] | p[at + 3] << 8) == (int)id, "a response is not of the type that belongs to the request");
        at += 4;
    }
    void header(uint32_t handle)
    {
        uint64_t const lo = u32();
        CHECK((int64_t)(lo | (uint64_t)u32() << 32) == sys::wallTicks(), "a response does not have the time it was made");
        CHECK(u32() == handle, "a response does not have the handle of its request");
        CHECK(u32() == 0, "a request that is served is not reported as good");
        CHECK(u8() == 0, "a response has unexpected diagnostics");
        CHECK(nullOrEmpty(), "a response has an unexpected string table");
        CHECK(u8() == 0 && u8() == 0 && u8() == 0, "a response has an unexpected additional header");
    }
    uint32_t number()                // numeric NodeId in namespace 0
    {
        uint8_t const k = u8();
        CHECK(k < 3, "a session has a numeric id");
        if (k == 0) return u8();
        uint32_t const ns = k == 1 ? u8() : u16();
        CHECK(ns == 0, "a session id is in namespace 0");
        return k == 1 ? u16() : u32();
    }
    void endpoint()
    {
        CHECK(strIs("opc.tcp://localhost:4369"), "an endpoint has its address");
        CHECK(str() != 0, "an endpoint names its application");
        str();
        uint8_t const m = u8();
        if (m & 1) str();
        if (m & 2) str();
        u32(); str(); str();
        for (uint32_t k = u32(); k && k != 0xffffffffu; --k) str();
        str();
        CHECK(u32() == 1, "an endpoint offers no security");
        CHECK(strIs("http://opcfoundation.org/UA/SecurityPolicy#None"), "an endpoint names its security policy");
        CHECK(nullOrEmpty(), "an endpoint has no user tokens");
        str(); u8();
    }
    void done() { CHECK(at == n, "a response has trailing bytes"); }
};

void deliver(UaEncodedMessageHdr const& h, uint8_t const* p, unsigned n)
{
    app::reactor::MsgStore<MsgUaEncodedMessageReceiveInd> st;
    auto& m = st.getMsg();
    m.hdr = h; m.length = n;
    std::memcpy(m.data, p, n);
    nRsp = nAssoc = nOther = 0;
    sys::wall.tv_sec += 86399; sys::wall.tv_usec = (sys::wall.tv_usec + 7) % 1000000;
    fake::guarded([&] { R->deliver(m); });
    CHECK(nOther == 0, "a request sends something that is not a response");
}
void nothing(char const* msg) { CHECK(nRsp == 0 && nAssoc == 0, msg); }
UaEncodedMessageHdr someHdr()
{
    UaEncodedMessageHdr h;
    h.connectionId = sym<uint32_t>("connection"); h.secureChannelId = sym<uint32_t>("channel");
    h.requestId = sym<uint32_t>("request"); h.sessionId = sym<uint32_t>("session");
    return h;
}
enum Svc { getEndpoints, create, activate, close_, read_ };
unsigned const reqIds[] = {428, 461, 467, 473, 631};
struct Req { Gen g; uint32_t handle; uint32_t max; uint8_t timeout[8]; };
void body(Req& r, Svc s)
{
    Gen& g = r.g;
    switch (s)
    {
    case getEndpoints: { UaGetEndpointsReq q; genAll(g, q.endpointUrl, q.localeIds, q.profileUris); break; }
    case create:
    {
        UaCreateSessionReq q;
        genAll(g, q.clientDescription, q.serverUri, q.endpointUrl, q.sessionName, q.clientNonce, q.clientCertificate, q.requestedSessionTimeout, q.maxResponseMessageSize);
        std::memcpy(r.timeout, g.ref.b + g.ref.n - 12, 8);
        r.max = q.maxResponseMessageSize;
        break;
    }
    case activate: { UaActivateSessionReq q; gen(g, q.clientSignature); genEmpty(g, q.clientSoftwareCertificates); genAll(g, q.localeIds, q.userIdentityToken, q.userTokenSignature); break; }
    case close_: { UaCloseSessionReq q; gen(g, q.deleteSubscriptions); break; }
    case read_: { UaReadReq q; genAll(g, q.maxAge, q.timestampsToReturn, q.nodesToRead); break; }
    }
}
// tokenForm 0-2 numeric, in two, four or seven bytes, 3 text, 4 guid, 5 bytes
void mk(Req& r, Svc s, unsigned tokenForm, uint16_t ns, uint32_t token)
{
    Bytes& b = r.g.ref;
    b.put(1); b.put(0); b.le(reqIds[s], 2);
    b.put((uint8_t)tokenForm);
    if (tokenForm == 0) b.put((uint8_t)token);
    if (tokenForm == 1) { b.put((uint8_t)ns); b.le(token, 2); }
    if (tokenForm >= 2) b.le(ns, 2);
    if (tokenForm == 2) b.le(token, 4);
    if (tokenForm == 3 || tokenForm == 5) { b.le(1, 4); b.put((uint8_t)token); }
    if (tokenForm == 4) { sym_make(b.b + b.n, 16, "guid"); b.n += 16; }
    UaRequestHeader h;
    genAll(r.g, h.timestamp, h.requestHandle, h.returnDignostics, h.auditEntityId, h.timeoutHint, h.additionalHeader);
    r.handle = h.requestHandle;
    body(r, s);
}
Session* find(unsigned form, uint16_t ns, uint32_t token)
{
    if (form > 2 || ns != 0) return nullptr;
    for (int i = 0; i < nSes; ++i) if (ses[i].live && ses[i].token == token) return &ses[i];
    return nullptr;
}
Session* byId(uint32_t id) { for (int i = 0; i < nSes; ++i) if (ses[i].live && ses[i].id == id) return &ses[i]; return nullptr; }

void request(Svc s, Req& r, UaEncodedMessageHdr const& h, Session* a, bool full = false)
{
    deliver(h, r.g.ref.b, r.g.ref.n);
    bool served = true;
    if (s == create) served = !full;
    if (s == activate || s == close_) served = a != nullptr;
    if (s == read_) { a = byId(h.sessionId); served = a && a->active && a->ch == h.secureChannelId; }
    if (!served) { nothing("a request without a session it may use is served"); sym_reach(full ? "full" : "refused"); return; }
    CHECK(nRsp == 1, "a request is answered once");
    UaEncodedMessageHdr want = h;
    if (s == activate) want.sessionId = a->id;
    CHECK(same(rsp.hdr, want), "a response goes to where the request came from");
    CHECK(nAssoc == (s == activate ? 1 : 0), "a session is assigned to a channel exactly when it is activated");
    if (s == activate) CHECK(assoc.connectionId == h.connectionId && assoc.secureChannelId == h.secureChannelId && assoc.sessionId == a->id, "a session is assigned to the channel that activated it");
    Reader d{rsp.data, rsp.len};
    static unsigned const rspIds[] = {431, 464, 470, 476, 634};
    d.typeId(rspIds[s]);
    d.header(r.handle);
    switch (s)
    {
    case getEndpoints: CHECK(d.u32() == 1, "the server has one endpoint"); d.endpoint(); d.done(); sym_reach("endpoints"); break;
    case create:
    {
        CHECK(nSes < 40, "");
        uint32_t const id = d.number(), token = d.number();
        for (int i = 0; i < nSes; ++i) CHECK(!ses[i].live || (ses[i].id != id && ses[i].token != token), "two sessions have the same id or token");
        CHECK(id != invalidSuid, "a session has a valid id");
        Session& n = ses[nSes++];
        n = Session{}; n.live = true; n.id = id; n.token = token;
        d.skip(8);
        CHECK(!std::memcmp(d.p + d.at - 8, r.timeout, 8), "a session has the requested timeout");
        CHECK(d.nullOrEmpty() && d.nullOrEmpty(), "a session has no nonce and certificate");
        CHECK(d.u32() == 1, "the server has one endpoint"); d.endpoint();
        CHECK(d.nullOrEmpty() && d.nullOrEmpty() && d.nullOrEmpty(), "a session has no certificate and signature");
        CHECK(d.u32() == r.max, "a session has the requested message size");
        d.done();
        sym_reach("created");
        break;
    }
    case activate:
        CHECK(d.nullOrEmpty() && d.nullOrEmpty() && d.nullOrEmpty(), "an activation has no nonce, results and diagnostics");
        d.done();
        a->active = true; a->ch = h.secureChannelId;
        sym_reach("activated");
        break;
    case close_: d.done(); a->live = false; sym_reach("closed"); break;
    case read_: if (d.nullOrEmpty()) { CHECK(d.nullOrEmpty(), "a read has no diagnostics"); d.done(); } sym_reach("read"); break;
    }
}
uint32_t someToken()
{
    unsigned const k = choose("token", nSes + 1);
    if (k < (unsigned)nSes) return ses[k].token;
    uint32_t const v = sym<uint32_t>("token");
    for (int i = 0; i < nSes; ++i) ASSUME(v != ses[i].token);
    ASSUME(v == 0 || v > 31 || v == 9);
    return v;
}
void step(Svc s, bool full = false)
{
    Req r; r.g.free = false;
    UaEncodedMessageHdr h = someHdr();
    unsigned form = 2; uint16_t ns = 0; uint32_t token = 0;
    if (s == activate || s == close_) { token = someToken(); ns = sym<uint16_t>("ns"); }
    // the session of a request is what was assigned to its channel before: a session or none
    if (s == read_)
    {
        unsigned const k = choose("session", nSes + 1);
        if (k < (unsigned)nSes) h.sessionId = ses[k].id;
        else { for (int i = 0; i < nSes; ++i) ASSUME(h.sessionId != ses[i].id); ASSUME(h.sessionId == 0 || h.sessionId == 9 || h.sessionId > 31); }
    }
    mk(r, s, form, ns, token);
    request(s, r, h, find(form, ns, token), full);
}
}

extern "C" void h_uav_history()
{
    world();
    step(create);
    if (chooseBool("two")) step(create);
    int const steps = THOROUGH ? 5 : 4;
    for (int i = 0; i < steps; ++i)
    {
        Svc const s = static_cast<Svc>(1 + choose("service", 4));
        if (s == create && nSes >= 3) sym_end_path();
        step(s);
    }
    sym_trace(nRsp);
}
// every structure of each request, every form of a token
extern "C" void h_uav_requests()
{
    world();
    step(create);
    Svc const s = static_cast<Svc>(choose("service", 5));
    if (s == read_)
    {
        Req r; r.g.free = false;
        UaEncodedMessageHdr h = someHdr();
        mk(r, activate, 0, 0, ses[0].token);
        request(activate, r, h, &ses[0]);
    }
    Req r; r.g.free = false; r.g.base = choose("base", 2); r.g.pick = choose("pick", 40);
    if (THOROUGH) r.g.pick2 = choose("pick2", 40);
    unsigned const form = choose("form", 6);
    UaEncodedMessageHdr h = someHdr();
    if (s == read_) { h.sessionId = ses[0].id; ASSUME(h.secureChannelId == ses[0].ch); }
    mk(r, s, form, 0, ses[0].token);
    request(s, r, h, find(form, 0, ses[0].token));
}
// one long text in any place, with all messages logged
extern "C" void h_uav_long()
{
    world();
    step(create);
    Svc const s = static_cast<Svc>(choose("service", 5));
    if (s == read_)
    {
        Req r; r.g.free = false;
        UaEncodedMessageHdr h = someHdr();
        mk(r, activate, 0, 0, ses[0].token);
        request(activate, r, h, &ses[0]);
    }
    fake::quiet(LogLevel::LD);
    Req r; r.g.free = false; r.g.base = choose("base", 2); r.g.longAt = choose("which", 14); r.g.longLen = longText();
    UaEncodedMessageHdr h = someHdr();
    if (s == read_) { h.sessionId = ses[0].id; ASSUME(h.secureChannelId == ses[0].ch); }
    mk(r, s, 2, 0, ses[0].token);
    if (r.g.strs <= r.g.longAt) sym_end_path();
    request(s, r, h, find(2, 0, ses[0].token));
    sym_reach("long");
}
extern "C" void h_uav_truncated()
{
    world();
    step(create);
    Svc const s = static_cast<Svc>(choose("service", 5));
    UaEncodedMessageHdr h = someHdr();
    if (s == read_)
    {
        Req r; r.g.free = false;
        mk(r, activate, 2, 0, ses[0].token);
        request(activate, r, h, &ses[0]);
        h.sessionId = ses[0].id;
    }
    Req r; r.g.free = false; r.g.base = choose("base", 2);
    mk(r, s, 2, 0, ses[0].token);
    unsigned const n = r.g.ref.n < 256 ? r.g.ref.n : 256;
    unsigned const cut = choose("cut", n);
    deliver(h, r.g.ref.b, cut);
    nothing("a truncated request has an effect");
    sym_reach("truncated");
    // nothing has changed
    Req q; q.g.free = false;
    if (s == create) { q.g.ref.n = 0; step(create); return; }
    mk(q, s, 2, 0, ses[0].token);
    request(s, q, h, &ses[0]);
}
// any service number in any form; requests the server does not know do not change anything
extern "C" void h_uav_unknown()
{
    world();
    step(create);
    UaEncodedMessageHdr const h = someHdr();
    unsigned const form = choose("form", 6);
    uint8_t w[40];
    sym_make(w, sizeof(w), "request");
    w[0] = (uint8_t)form;
    uint32_t id = 0, ns = 0;
    if (form == 0) id = w[1];
    if (form == 1) { ns = w[1]; id = w[2] | (uint32_t)w[3] << 8; }
    if (form == 2) { ns = w[1] | (uint32_t)w[2] << 8; id = le(w + 3); }
    if (form == 3 || form == 5) { w[3] = 4; w[4] = w[5] = w[6] = 0; }
    if (form < 3) for (unsigned k : reqIds) ASSUME(ns != 0 || id != k);
    deliver(h, w, sizeof(w));
    nothing("a request for an unknown service has an effect");
    uint64_t const mem = sym_live_heap();
    deliver(h, w, sizeof(w));
    w[2] ^= 1; w[4] ^= 2;
    if (form < 3)
    {
        id = form == 0 ? w[1] : form == 1 ? (w[2] | (uint32_t)w[3] << 8) : le(w + 3);
        if (form == 2) ns = w[1] | (uint32_t)w[2] << 8;
        for (unsigned k : reqIds) ASSUME(ns != 0 || id != k);
        deliver(h, w, sizeof(w));
        nothing("a request for an unknown service has an effect");
    }
    CHECK(sym_live_heap() == mem, "requests for unknown services take up memory");
    sym_reach("unknown");
    step(activate);
}
extern "C" void h_uav_reuse()
{
    world();
    bool const active = chooseBool("active");
    unsigned const noise = choose("noise", 5);
    uint64_t mem = 0;
    for (uint32_t i = 0; i < 300; ++i)
    {
        nSes = 0;
        UaEncodedMessageHdr h{i, i + 1, i + 2, invalidSuid};
        Req c; c.g.free = false; c.g.concrete = true; mk(c, create, 0, 0, 0);
        request(create, c, h, nullptr);
        if (active) { Req a; a.g.free = false; a.g.concrete = true; mk(a, activate, 1, 0, ses[0].token); request(activate, a, h, &ses[0]); h.sessionId = ses[0].id; }
        Req x; x.g.free = false; x.g.concrete = true; mk(x, static_cast<Svc>(noise), 2, 0, noise == close_ ? 77 : ses[0].token);
        if (noise == create) { deliver(h, x.g.ref.b, x.g.ref.n - 1); nothing("a truncated request has an effect"); }
        else request(static_cast<Svc>(noise), x, h, noise == close_ ? nullptr : &ses[0]);
        Req e; e.g.free = false; e.g.concrete = true; mk(e, close_, 2, 0, ses[0].token);
        request(close_, e, h, &ses[0]);
        Req f; f.g.free = false; f.g.concrete = true; mk(f, read_, 2, 0, ses[0].token);
        request(read_, f, h, nullptr);
        if (i == 34) mem = sym_live_heap();
    }
    CHECK(sym_live_heap() == mem, "sessions that were closed take up memory");
    step(create);
    step(read_);
    sym_reach("reused");
}
// a session is not affected by what an earlier one with its number did
extern "C" void h_uav_second()
{
    world();
    step(create);
    UaEncodedMessageHdr h0 = someHdr();
    unsigned const life = choose("life", 3);
    if (life) { Req a; a.g.free = false; mk(a, activate, 2, 0, ses[0].token); request(activate, a, h0, &ses[0]); h0.sessionId = ses[0].id; }
    if (life > 1) { Req q; q.g.free = false; mk(q, read_, 2, 0, ses[0].token); request(read_, q, h0, &ses[0]); }
    { Req e; e.g.free = false; mk(e, close_, 2, 0, ses[0].token); request(close_, e, h0, &ses[0]); }
    for (uint32_t i = 0; i < 31; ++i)
    {
        nSes = 0;
        UaEncodedMessageHdr const h{i, i + 1, i + 2, invalidSuid};
        Req c; c.g.free = false; c.g.concrete = true; mk(c, create, 0, 0, 0);
        request(create, c, h, nullptr);
        Req e; e.g.free = false; e.g.concrete = true; mk(e, close_, 2, 0, ses[0].token);
        request(close_, e, h, &ses[0]);
    }
    nSes = 0;
    step(create);
    for (int i = 0; i < (THOROUGH ? 3 : 2); ++i)
    {
        Svc const s = static_cast<Svc>(2 + choose("service", 3));
        step(s);
    }
    sym_reach("second");
}
extern "C" void h_uav_full()
{
    world();
    for (int i = 0; i < 32; ++i) { Req c; c.g.free = false; c.g.concrete = true; mk(c, create, 0, 0, 0); request(create, c, UaEncodedMessageHdr{1, 2, 3, invalidSuid}, nullptr); }
    Req c; c.g.free = false; c.g.concrete = true; mk(c, create, 0, 0, 0);
    request(create, c, UaEncodedMessageHdr{1, 2, 3, invalidSuid}, nullptr, true);
    unsigned const a = choose("first", 32);
    Req e; e.g.free = false; e.g.concrete = true; mk(e, close_, 2, 0, ses[a].token);
    request(close_, e, UaEncodedMessageHdr{1, 2, 3, invalidSuid}, &ses[a]);
    step(create);
    CHECK(ses[nSes - 1].id == ses[a].id, "a session that was closed is not available again");
    step(create, true);
    unsigned const b = choose("other", 32);
    if (b != a) { Req q; q.g.free = false; mk(q, activate, 2, 0, ses[b].token); request(activate, q, someHdr(), &ses[b]); }
}
