// OPC UA binary codec: round trip, wire layout, and refusal of malformed data.
#include "uacodec.h"
#include "fake.h"
#include <exception>
using namespace app;
using namespace app::ua;
// Every entry exists twice: h_ua_x checks the round trip, h_uaw_x the wire layout.
#define ENTRY(name) static void e_##name(); extern "C" void h_ua_##name() { e_##name(); } extern "C" void h_uaw_##name() { wire = true; e_##name(); } static void e_##name()

namespace
{
OpcUaSduBuffer& fill(OpcUaSduBuffer& b, uint8_t const* p, unsigned n)
{
    for (unsigned i = 0; i < n; ++i) b.write(p[i]);
    return b;
}
uint8_t before[8];
bool wire = false;

// The value is written after "pre" other bytes, of which "gone" were already read.
template <class T> void check(Gen& g, T const& v, unsigned pre, unsigned gone)
{
    static OpcUaSduBuffer buf;
    buf.reset();
    OpcUaBinaryCodec c(buf);
    for (unsigned i = 0; i < pre; ++i) { before[i] = sym<uint8_t>("before"); c.write(before[i]); }
    for (unsigned i = 0; i < gone; ++i) c.read();
    uint8_t* const start = buf.end();
    if (wire)
    {
        c << v;
        CHECK(buf.end() == start + g.ref.n, "encoded length");
        uint8_t d = 0;
        for (unsigned i = 0; i < g.ref.n; ++i) d |= (uint8_t)(start[i] ^ g.ref.b[i]);
        CHECK(d == 0, "encoded bytes");
        for (unsigned i = 0; i < pre; ++i) CHECK((start - pre)[i] == before[i], "bytes written earlier were changed");
        static OpcUaSduBuffer in;
        in.reset();
        fill(in, g.ref.b, g.ref.n);
        OpcUaBinaryCodec r(in);
        T w;
        r >> w;
        CHECK(in.begin() == in.end(), "decoding stops at another place than the value ends");
        CHECK(same(v, w), "value decoded from its wire form");
    }
    else
    {
        c << v;
        uint8_t const after = sym<uint8_t>("after");
        c.write(after);
        for (unsigned i = gone; i < pre; ++i) CHECK(c.read() == before[i], "bytes written earlier were changed");
        T w;
        c >> w;
        CHECK(buf.end() - buf.begin() == 1, "decoding does not consume exactly what encoding produced");
        CHECK(c.read() == after, "byte after the value");
        CHECK(same(v, w), "decoded value differs from the encoded one");
    }
}
template <class T> void full(unsigned maxStr, unsigned maxArr, unsigned maxDepth = 1)
{
    fake::quiet();
    static Gen g;
    g.maxStr = maxStr; g.maxArr = maxArr; g.maxDepth = maxDepth;
    T v;
    gen(g, v);
    unsigned const pre = choose("pre", 3);
    check(g, v, pre, pre == 2 ? 1 : 0);
    sym_reach("done");
}
template <class T> void message(unsigned points)
{
    fake::quiet();
    static Gen g;
    g.free = false;
    g.base = choose("base", 2);
    g.pick = choose("pick", points);
    if (THOROUGH && g.pick) g.pick2 = choose("pick2", g.pick);
    T v;
    gen(g, v);
    if (g.pick > g.count || g.pick == points - 1) CHECK(g.count <= points - 1, "harness: too few decision points");
    if (g.pick > g.count) sym_end_path();
    check(g, v, 3, 1);
    sym_reach("done");
}
}

ENTRY(numbers)
{
    fake::quiet();
    static Gen g;
    unsigned const t = 1 + choose("type", 22);
    if ((t >= 12 && t <= 18 && t != 13 && t != 14) || t >= 20) sym_end_path();
    unsigned const pre = choose("pre", 3);
    byType(t, [&](auto* p)
    {
        std::remove_pointer_t<decltype(p)> v;
        gen(g, v);
        check(g, v, pre, pre == 2 ? 1 : 0);
    });
    sym_reach("done");
}
ENTRY(string)
{
    fake::quiet();
    static Gen g;
    static unsigned const lens[] = {0, 1, 2, 3, 4, 15, 16, 17, 127, 128, 255, 256, 257, 300, 1000, 4087, 4088};
    unsigned const len = lens[choose("length", 17)];
    if (chooseBool("bytes")) { ByteString v; genStr(g, v, len); check(g, v, 1, 1); }
    else { String v; genStr(g, v, len); check(g, v, 1, 1); }
    sym_reach("done");
}
ENTRY(nodeid) { full<NodeId>(3, 0); }
ENTRY(expnodeid) { full<ExpandedNodeId>(2, 0); }
ENTRY(qname) { full<QualifiedName>(3, 0); }
ENTRY(ltext) { full<LocalizedText>(3, 0); }
ENTRY(extobj) { full<ExtensionObject>(2, 0); }
ENTRY(datavalue) { full<DataValue>(2, 1); }
ENTRY(diag) { full<DiagnosticInfo>(1, 0, 1); }
ENTRY(diag_deep)
{
    fake::quiet();
    static Gen g;
    DiagnosticInfo v;
    DiagnosticInfo* p = &v;
    unsigned const n = 1 + choose("levels", THOROUGH ? 40 : 10);
    for (unsigned i = 0; i < n; ++i)
    {
        g.ref.put((uint8_t)(0x41 | (i % 2 ? 0x20 : 0)));
        gen(g, p->symbolicId.emplace());
        if (i % 2) gen(g, p->innerStatusCode.emplace());
        p->innerDiagnosticInfo = std::make_unique<DiagnosticInfo>();
        p = p->innerDiagnosticInfo.get();
    }
    g.ref.put(0);
    check(g, v, 1, 0);
    sym_reach("done");
}
ENTRY(variant)
{
    fake::quiet();
    static Gen g;
    g.maxStr = 1; g.maxArr = 2; g.maxDepth = 0;
    Variant v;
    unsigned const t = choose("type", 23);
    if (t == 0) g.ref.put(0);
    else
    {
        g.free = false;
        g.base = choose("base", 2);
        g.pick = choose("pick", 8);
        genVariant(g, v, t, choose("shape", 3));
        if (g.pick > g.count) sym_end_path();
    }
    unsigned const pre = choose("pre", 3);
    check(g, v, pre, pre == 2 ? 1 : 0);
    sym_reach("done");
}
// every array size up to the buffer limit boundary, several values one after another
ENTRY(arrays)
{
    fake::quiet();
    static Gen g;
    static unsigned const lens[] = {0, 1, 2, 3, 17, 255, 256, 257, 1021, 1022};
    unsigned const n = lens[choose("length", 10)];
    DynamicArray<UInt32> v;
    g.ref.le(n, 4);
    v.resize(n);
    for (auto& x : v) gen(g, x);
    check(g, v, 1, 1);
    sym_reach("done");
}
#define M(name, T, points) ENTRY(m_##name) { message<T>(points); }
M(hdr, MessageHeader, 2)
M(uahdr, UaMessageHeader, 2)
M(hello, HelloMessage, 3)
M(ack, AcknowledgeMessage, 2)
M(err, ErrorMessage, 3)
M(rhello, ReverseHelloMessage, 4)
M(sechdr, UaSecurityHeader, 5)
M(tokhdr, UaSecurityTokenHeader, 2)
M(seqhdr, UaSequenceHeader, 2)
M(reqhdr, UaRequestHeader, 16)
M(rsphdr, UaResponseHeader, 40)
M(openreq, UaOpenSecureChannelReqCont, 16)
M(openrsp, UaOpenSecureChannelRspCont, 40)
M(closereq, UaCloseSecureChannelReqCont, 16)
M(closersp, UaCloseSecureChannelRspCont, 40)
M(getreq, UaGetEndpointsReqCont, 40)
M(getrsp, UaGetEndpointsRspCont, 120)
M(createreq, UaCreateSessionReqCont, 40)
M(creatersp, UaCreateSessionRspCont, 130)
M(closesreq, UaCloseSessionReqCont, 16)
M(closesrsp, UaCloseSessionRspCont, 40)
M(actreq, UaActivateSessionReqCont, 40)
M(actrsp, UaActivateSessionRspCont, 80)
M(readreq, UaReadReqCont, 40)
M(readrsp, UaReadRspCont, 120)
M(token, UaChannelSecurityToken, 2)

// Forms that the encoder does not produce but that are part of the wire format.
extern "C" void h_uaw_alternatives()
{
    fake::quiet();
    static OpcUaSduBuffer buf;
    OpcUaBinaryCodec c(buf);
    static Bytes r;
    switch (choose("form", 9))
    {
    case 0: { uint8_t b = sym<uint8_t>("b"); r.put(b); Boolean v; fill(buf, r.b, r.n); c >> v; CHECK(v == (b != 0), "any non-zero byte is true"); break; }
    case 1: case 2:
    {
        // a numeric NodeId in a wider form than necessary
        uint16_t const ns = sym<uint16_t>("ns");
        uint32_t const id = sym<uint32_t>("id");
        bool const wide = chooseBool("wide");
        if (wide) { r.put(2); r.le(ns, 2); r.le(id, 4); }
        else { ASSUME(ns < 256 && id < 65536); r.put(1); r.le(ns, 1); r.le(id, 2); }
        NodeId v; fill(buf, r.b, r.n); c >> v;
        CHECK(v.value.index() == 0 && v.namespaceIndex == ns && std::get<UInt32>(v.value) == id, "numeric NodeId");
        break;
    }
    case 3: { r.le(0, 4); String v; fill(buf, r.b, r.n); c >> v; CHECK(v.size() == 0, "empty string"); break; }
    case 4: { r.le(0, 4); ByteString v; fill(buf, r.b, r.n); c >> v; CHECK(v.size() == 0, "empty byte string"); break; }
    case 5: { r.le(0xffffffffu, 4); DynamicArray<String> v; fill(buf, r.b, r.n); c >> v; CHECK(v.empty(), "null array"); break; }
    case 6:
    {
        bool const null = chooseBool("null");
        r.put(3); r.le(null ? 0xffffffffu : 0, 4); r.le(1, 4); r.put('x');
        LocalizedText v; fill(buf, r.b, r.n); c >> v;
        CHECK(!(v.locale && v.locale->size()) && v.text && v.text->size() == 1 && (*v.text)[0] == 'x', "empty locale");
        break;
    }
    case 7: { r.put(0); r.put(5); r.put(0); ExtensionObject v; fill(buf, r.b, r.n); c >> v; CHECK(!(v.byteString && v.byteString->size()) && std::get<UInt32>(v.nodeId.value) == 5, "no body"); break; }
    case 8: { r.put(0x86); r.le(0xffffffffu, 4); Variant v; fill(buf, r.b, r.n); c >> v; CHECK(v.value && v.value->index() == 27 && std::get<DynamicArray<Int32>>(*v.value).empty(), "null array"); break; }
    }
    CHECK(buf.begin() == buf.end(), "consumed");
    sym_reach("done");
}

// ---- malformed data -------------------------------------------------------------------------

namespace
{
bool watch = false;
size_t allocLimit = 0;

// Decode b; the outcome must be a complete value or a refusal.
template <class T> bool decode(OpcUaSduBuffer& b, unsigned n)
{
    OpcUaBinaryCodec c(b);
    uint8_t const* const first = b.begin();
    bool ok = false, refused = false;
    {
        T v;
        allocLimit = 4096 + 1024 * (size_t)n;
        watch = true;
        try { c >> v; ok = true; }
        catch (std::exception const&) { refused = true; }
        catch (...) {}
        watch = false;
        CHECK(ok || refused, "malformed data must be refused with a standard exception");
        CHECK(first <= b.begin() && b.begin() <= b.end(), "read position outside the received data");
        CHECK(b.end() == first + n, "decoding must not change the amount of received data");
    }
    sym_reach(ok ? "accepted" : "refused");
    return ok;
}
OpcUaSduBuffer rx;
template <class T> void anyBytes(unsigned maxLen)
{
    fake::quiet();
    unsigned const n = choose("n", maxLen + 1);
    rx.reset();
    static uint8_t raw[64];
    sym_make(raw, n, "rx");
    fill(rx, raw, n);
    decode<T>(rx, n);
}
// every proper prefix of an encoding is refused
template <class T> void truncated(unsigned maxStr, unsigned maxArr)
{
    fake::quiet();
    static Gen g;
    g.free = false; g.base = choose("base", 2); g.maxStr = maxStr; g.maxArr = maxArr;
    T v;
    gen(g, v);
    unsigned hi = choose("block", (g.ref.n + 63) / 64 + 1), lo = choose("cut", 64);
    unsigned const n = hi * 64 + lo;
    if (n >= g.ref.n) sym_end_path();
    rx.reset();
    fill(rx, g.ref.b, n);
    CHECK(!decode<T>(rx, n), "a truncated encoding was accepted");
}
// a valid encoding with a few arbitrary bytes anywhere
template <class T> void damaged(unsigned maxStr, unsigned maxArr, unsigned width)
{
    fake::quiet();
    static Gen g;
    g.free = false; g.base = 1; g.concrete = true; g.maxStr = maxStr; g.maxArr = maxArr; g.maxDepth = 0;
    T v;
    gen(g, v);
    unsigned hi = choose("block", (g.ref.n + 63) / 64 + 1), lo = choose("at", 64);
    unsigned const at = hi * 64 + lo;
    if (at + width > g.ref.n) sym_end_path();
    sym_make(g.ref.b + at, width, "damage");
    rx.reset();
    fill(rx, g.ref.b, g.ref.n);
    decode<T>(rx, g.ref.n);
}
}
extern "C" void sym_on_alloc(std::size_t n) { if (watch) CHECK(n <= allocLimit, "allocation out of proportion to the received data"); }
#if !__has_feature(address_sanitizer)          // the native back end has its own operators
void* operator new(std::size_t n) { sym_on_alloc(n); return std::malloc(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
#endif

#define ANY(name, T, n) extern "C" void h_uad_##name() { anyBytes<T>(n); }
ANY(numbers, DynamicArray<UInt16>, 14)
ANY(string, String, 16)
ANY(bytes, ByteString, 16)
ANY(strings, DynamicArray<String>, 14)
ANY(nodeid, NodeId, 22)
ANY(expnodeid, ExpandedNodeId, 22)
ANY(qname, QualifiedName, 12)
ANY(ltext, LocalizedText, 14)
ANY(extobj, ExtensionObject, 14)
ANY(variant, Variant, THOROUGH ? 14 : 11)
ANY(datavalue, DataValue, THOROUGH ? 14 : 11)
ANY(diag, DiagnosticInfo, THOROUGH ? 14 : 10)
ANY(hello, HelloMessage, 30)
#define MAL(name, T) extern "C" void h_uad_t_##name() { truncated<T>(2, THOROUGH ? 2 : 1); } extern "C" void h_uad_d_##name() { damaged<T>(1, 1, THOROUGH ? 6 : 4); }
MAL(hello, HelloMessage)
MAL(err, ErrorMessage)
MAL(sechdr, UaSecurityHeader)
MAL(openreq, UaOpenSecureChannelReqCont)
MAL(openrsp, UaOpenSecureChannelRspCont)
MAL(closereq, UaCloseSecureChannelReqCont)
MAL(getreq, UaGetEndpointsReqCont)
MAL(getrsp, UaGetEndpointsRspCont)
MAL(createreq, UaCreateSessionReqCont)
MAL(creatersp, UaCreateSessionRspCont)
MAL(closesreq, UaCloseSessionReqCont)
MAL(actreq, UaActivateSessionReqCont)
MAL(actrsp, UaActivateSessionRspCont)
MAL(readreq, UaReadReqCont)
MAL(readrsp, UaReadRspCont)
// nesting as deep as the data allows
extern "C" void h_uad_deep()
{
    fake::quiet();
    unsigned const n = 4096 - choose("less", 3);
    bool const last = chooseBool("closed");
    for (unsigned i = 0; i < n; ++i) rx.write(i + 1 == n && last ? 0 : 0x40);
    CHECK(decode<DiagnosticInfo>(rx, n) == last, "nested diagnostics");
}
// what does not fit is refused, what fits is accepted
extern "C" void h_uad_full()
{
    fake::quiet();
    static Gen g;
    g.free = false; g.base = 1;
    unsigned const used = 4096 - choose("space", 40);
    for (unsigned i = 0; i < used; ++i) rx.write((uint8_t)i);
    unsigned const t = 1 + choose("type", 22);
    OpcUaBinaryCodec c(rx);
    byType(t, [&](auto* p)
    {
        std::remove_pointer_t<decltype(p)> v;
        gen(g, v);
        bool ok = false, refused = false;
        try { c << v; ok = true; }
        catch (std::exception const&) { refused = true; }
        CHECK(ok || refused, "std exception");
        CHECK(ok == (used + g.ref.n <= 4096), "a value is encoded exactly when it fits");
        CHECK(rx.size() <= 4096, "buffer size");
        sym_reach(ok ? "fits" : "too-long");
    });
}
extern "C" void h_uad_toolong()
{
    fake::quiet();
    static unsigned const lens[] = {4092, 4093, 4096, 4100, 5000, 70000};
    unsigned const len = lens[choose("length", 6)];
    OpcUaBinaryCodec c(rx);
    bool ok = false;
    try
    {
        if (chooseBool("array")) { DynamicArray<Byte> v; v.resize(len); c << v; }
        else { String v; v.val.resize(len, 'x'); c << v; }
        ok = true;
    }
    catch (std::exception const&) {}
    CHECK(ok == (len == 4092), "a value is encoded exactly when it fits");
    CHECK(rx.size() <= 4096, "buffer size");
    sym_reach(ok ? "fits" : "too-long");
}
