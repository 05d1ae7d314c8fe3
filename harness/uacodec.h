// OPC UA values with symbolic content, their reference encoding (written from the OPC UA binary
// encoding rules, independent of the code under test) and their equality.
#pragma once
#include "sym.h"
#include "Logger.hpp"
#include "OpcUaBinaryCodec.hpp"
#include <new>
#ifndef THOROUGH
#define THOROUGH 0
#endif

namespace app::ua        // so that argument-dependent lookup finds gen() and same()
{

struct Bytes
{
    uint8_t b[4096 + 64];
    unsigned n = 0;
    void put(uint8_t v) { b[n++] = v; }
    void le(uint64_t v, unsigned k) { for (unsigned i = 0; i < k; ++i) put((uint8_t)(v >> (8 * i))); }
};

// Source of structure decisions.  free: every decision forks.  Otherwise all decisions take the
// smallest (base 0) or largest (base 1) value except decision number "pick", which is free.
struct Gen
{
    Bytes ref;
    bool free = true;
    unsigned base = 0, pick = ~0u, pick2 = ~0u, count = 0;
    bool concrete = false;                 // fixed content instead of symbolic content
    uint8_t seed = 0;
    void content(void* p, unsigned n, char const* name)
    {
        if (!concrete) { sym_make(p, n, name); return; }
        for (unsigned i = 0; i < n; ++i) ((uint8_t*)p)[i] = (uint8_t)(seed += 3);
    }
    unsigned maxStr = 3, maxArr = 2, maxDepth = 1;
    Gen const* like = nullptr;             // decide as this one did, except at pick
    uint8_t log[64];
    unsigned decide(char const* name, unsigned n)
    {
        unsigned const i = count++;
        unsigned r = base ? n - 1 : 0;
        if (like && i != pick && i != pick2) r = i < like->count && like->log[i] < n ? like->log[i] : 0;
        else if (free || i == pick || i == pick2) r = choose(name, n);
        if (i < sizeof(log)) log[i] = (uint8_t)r;
        return r;
    }
    unsigned longAt = ~0u, longLen = 0, strs = 0;   // one text, by number, is this long
    bool flag(char const* name) { return decide(name, 2) != 0; }
};

template <DataTypeId ID, class T> void gen(Gen& g, NumericType<ID, T>& v)
{
    T x;
    if constexpr (std::is_same_v<T, bool>) { x = g.concrete || symBool("bool"); g.ref.put(x ? 1 : 0); }
    else
    {
        uint8_t raw[sizeof(T)];
        g.content(raw, sizeof(T), "num");
        std::memcpy(&x, raw, sizeof(T));
        for (unsigned i = 0; i < sizeof(T); ++i) g.ref.put(raw[i]);
    }
    v = x;
}
template <DataTypeId ID, class T> bool same(NumericType<ID, T> const& a, NumericType<ID, T> const& b)
{
    T x = a, y = b;
    return std::memcmp(&x, &y, sizeof(T)) == 0;
}
template <DataTypeId ID> void genStr(Gen& g, StringType<ID>& v, unsigned len)
{
    if (len == 0) { g.ref.le(0xffffffffu, 4); v.val.clear(); return; }
    g.ref.le(len, 4);
    v.val.resize(len);
    g.content(v.val.data(), len, "str");
    for (unsigned i = 0; i < len; ++i) g.ref.put((uint8_t)v.val[i]);
}
template <DataTypeId ID> bool sameStr(StringType<ID> const& a, StringType<ID> const& b)
{
    if (a.val.size() != b.val.size()) return false;
    uint8_t d = 0;
    for (size_t i = 0; i < a.val.size(); ++i) d |= (uint8_t)(a.val[i] ^ b.val[i]);
    return d == 0;
}
template <DataTypeId ID> void genText(Gen& g, StringType<ID>& v)
{
    unsigned const n = g.decide("len", g.maxStr + 1);
    if (g.strs++ != g.longAt) { genStr(g, v, n); return; }
    g.ref.le(g.longLen, 4);
    v.val.resize(g.longLen);
    for (unsigned i = 0; i < g.longLen; ++i) { v.val[i] = (uint8_t)('A' + i % 26); g.ref.put((uint8_t)('A' + i % 26)); }
}
inline unsigned longText() { static unsigned const n[] = {127, 255, 256, 1023, 1024, 2000, 3500}; return n[choose("length", 7)]; }
inline void gen(Gen& g, String& v) { genText(g, v); }
inline void gen(Gen& g, ByteString& v) { genText(g, v); }
inline bool same(String const& a, String const& b) { return sameStr(a, b); }
inline bool same(ByteString const& a, ByteString const& b) { return sameStr(a, b); }

template <class T> void gen(Gen& g, DynamicArray<T>& v);
template <class T> bool same(DynamicArray<T> const& a, DynamicArray<T> const& b);

template <class T> bool sameOpt(Opt<T> const& a, Opt<T> const& b);

inline void gen(Gen& g, Guid& v)
{
    gen(g, v.data1); gen(g, v.data2); gen(g, v.data3);
    for (auto& x : v.data4) gen(g, x);
}
inline bool same(Guid const& a, Guid const& b)
{
    bool r = same(a.data1, b.data1) && same(a.data2, b.data2) && same(a.data3, b.data3);
    for (unsigned i = 0; i < 8; ++i) r = r && same(a.data4[i], b.data4[i]);
    return r;
}

// kinds 0-2 numeric (two byte, four byte, full), 3 string, 4 guid, 5 opaque
inline void genNodeId(Gen& g, NodeId& v, uint8_t flags)
{
    unsigned const kind = g.decide("nodeid", 6);
    if (kind < 3)
    {
        uint32_t id = kind == 0 ? 7 : kind == 1 ? 300 : 70000;
        uint16_t ns = kind;
        if (!g.concrete) { id = sym<uint32_t>("id"); ns = sym<uint16_t>("ns"); }
        if (kind == 0) ASSUME(ns == 0 && id < 256);
        if (kind == 1) ASSUME(ns < 256 && id < 65536 && !(ns == 0 && id < 256));
        if (kind == 2) ASSUME(ns >= 256 || id >= 65536);
        v.namespaceIndex = ns;
        v.value.emplace<UInt32>() = id;
        g.ref.put((uint8_t)(kind | flags));
        if (kind == 0) g.ref.put((uint8_t)id);
        if (kind == 1) { g.ref.put((uint8_t)ns); g.ref.le(id, 2); }
        if (kind == 2) { g.ref.le(ns, 2); g.ref.le(id, 4); }
        return;
    }
    g.ref.put((uint8_t)(kind | flags));
    gen(g, v.namespaceIndex);
    if (kind == 3) gen(g, v.value.emplace<String>());
    if (kind == 4) gen(g, v.value.emplace<Guid>());
    if (kind == 5) gen(g, v.value.emplace<Opaque>());
}
inline void gen(Gen& g, NodeId& v) { genNodeId(g, v, 0); }
inline bool same(NodeId const& a, NodeId const& b)
{
    if (!same(a.namespaceIndex, b.namespaceIndex) || a.value.index() != b.value.index()) return false;
    switch (a.value.index())
    {
    case 0: return same(std::get<UInt32>(a.value), std::get<UInt32>(b.value));
    case 1: return same(std::get<String>(a.value), std::get<String>(b.value));
    case 2: return same(std::get<Guid>(a.value), std::get<Guid>(b.value));
    default: return same(std::get<Opaque>(a.value), std::get<Opaque>(b.value));
    }
}
// optional text: absent and empty are the same thing; states 0 absent, 1 empty, 2.. present
inline bool absentVsEmpty = false;      // an absent text was compared with an empty one
template <class S> bool sameText(Opt<S> const& a, Opt<S> const& b)
{
    if (a.has_value() != b.has_value() && !(a ? a->val.size() : b->val.size())) absentVsEmpty = true;
    bool const x = a && a->val.size(), y = b && b->val.size();
    if (x != y) return false;
    return !x || sameStr(*a, *b);
}
template <class S> bool decideText(Gen& g, Opt<S>& v)
{
    unsigned const st = g.decide("text", 3);
    if (st) v.emplace();
    return st == 2;
}
template <class S> void genText(Gen& g, Opt<S>& v) { genStr(g, *v, 1 + g.decide("len", g.maxStr)); }

inline void gen(Gen& g, ExpandedNodeId& v)
{
    bool const uri = decideText(g, v.namespaceUri);
    bool const idx = g.flag("serverIndex");
    genNodeId(g, v.nodeId, (uint8_t)((uri ? 0x80 : 0) | (idx ? 0x40 : 0)));
    if (uri) genText(g, v.namespaceUri);
    if (idx) gen(g, v.serverIndex.emplace());
}
inline bool same(ExpandedNodeId const& a, ExpandedNodeId const& b)
{
    return same(a.nodeId, b.nodeId) && sameText(a.namespaceUri, b.namespaceUri) && sameOpt(a.serverIndex, b.serverIndex);
}
inline void gen(Gen& g, QualifiedName& v) { gen(g, v.namespaceIndex); gen(g, v.name); }
inline bool same(QualifiedName const& a, QualifiedName const& b) { return same(a.namespaceIndex, b.namespaceIndex) && same(a.name, b.name); }
inline void gen(Gen& g, LocalizedText& v)
{
    bool const l = decideText(g, v.locale), t = decideText(g, v.text);
    g.ref.put((uint8_t)((l ? 1 : 0) | (t ? 2 : 0)));
    if (l) genText(g, v.locale);
    if (t) genText(g, v.text);
}
inline bool same(LocalizedText const& a, LocalizedText const& b) { return sameText(a.locale, b.locale) && sameText(a.text, b.text); }
inline void gen(Gen& g, ExtensionObject& v)
{
    genNodeId(g, v.nodeId, 0);
    bool const body = decideText(g, v.byteString);
    g.ref.put(body ? 1 : 0);
    if (body) genText(g, v.byteString);
}
inline bool same(ExtensionObject const& a, ExtensionObject const& b) { return same(a.nodeId, b.nodeId) && sameText(a.byteString, b.byteString); }

inline void genDiag(Gen& g, DiagnosticInfo& v, unsigned depth)
{
    unsigned m = 0;
    for (unsigned i = 0; i < 7; ++i)
    {
        if (i == 6 && depth == 0) break;
        if (g.flag("diag")) m |= 1u << i;
    }
    g.ref.put((uint8_t)m);
    if (m & 1) gen(g, v.symbolicId.emplace());
    if (m & 2) gen(g, v.namespaceUri.emplace());
    if (m & 4) gen(g, v.locale.emplace());
    if (m & 8) gen(g, v.localizedText.emplace());
    if (m & 16) gen(g, v.additionalInfo.emplace());
    if (m & 32) gen(g, v.innerStatusCode.emplace());
    if (m & 64) { v.innerDiagnosticInfo = std::make_unique<DiagnosticInfo>(); genDiag(g, *v.innerDiagnosticInfo, depth - 1); }
}
inline void gen(Gen& g, DiagnosticInfo& v) { genDiag(g, v, g.maxDepth); }
inline bool same(DiagnosticInfo const& a, DiagnosticInfo const& b)
{
    if (!sameOpt(a.symbolicId, b.symbolicId) || !sameOpt(a.namespaceUri, b.namespaceUri) || !sameOpt(a.locale, b.locale)
        || !sameOpt(a.localizedText, b.localizedText) || !sameOpt(a.additionalInfo, b.additionalInfo) || !sameOpt(a.innerStatusCode, b.innerStatusCode)) return false;
    if (!a.innerDiagnosticInfo != !b.innerDiagnosticInfo) return false;
    return !a.innerDiagnosticInfo || same(*a.innerDiagnosticInfo, *b.innerDiagnosticInfo);
}
template <class T> bool sameOpt(Opt<T> const& a, Opt<T> const& b)
{
    if (a.has_value() != b.has_value()) return false;
    return !a || same(*a, *b);
}
template <class T> void gen(Gen& g, DynamicArray<T>& v)
{
    unsigned const n = g.decide("array", g.maxArr + 1);
    g.ref.le(n, 4);
    v.resize(n);
    for (auto& x : v) gen(g, x);
}
template <class T> bool same(DynamicArray<T> const& a, DynamicArray<T> const& b)
{
    if (a.size() != b.size()) return false;
    bool r = true;
    for (size_t i = 0; i < a.size(); ++i) r = same(a[i], b[i]) && r;
    return r;
}
inline bool same(XmlElement const&, XmlElement const&) { return true; }

// type ids 1..22 of the values a Variant can hold; 16 (XmlElement) is a placeholder in the code
template <class F> void byType(unsigned t, F&& f)
{
    switch (t)
    {
#define T1(n, T) case n: f(static_cast<T*>(nullptr)); break;
    T1(1, Boolean) T1(2, SByte) T1(3, Byte) T1(4, Int16) T1(5, UInt16) T1(6, Int32) T1(7, UInt32) T1(8, Int64) T1(9, UInt64) T1(10, Float) T1(11, Double)
    T1(12, String) T1(13, DateTime) T1(14, Guid) T1(15, ByteString) T1(17, NodeId) T1(18, ExpandedNodeId) T1(19, StatusCode) T1(20, QualifiedName)
    T1(21, LocalizedText) T1(22, ExtensionObject)
#undef T1
    default: sym_end_path();
    }
}
inline void genVariant(Gen& g, Variant& v, unsigned t, unsigned shape)   // shape 0 scalar, 1 array, 2 array with dimensions
{
    g.ref.put((uint8_t)(t | (shape ? 0x80 : 0) | (shape == 2 ? 0x40 : 0)));
    byType(t, [&](auto* p)
    {
        using T = std::remove_pointer_t<decltype(p)>;
        v.value = std::make_unique<Variant::Value>();
        if (shape) gen(g, v.value->emplace<DynamicArray<T>>());
        else gen(g, v.value->emplace<T>());
    });
    if (shape == 2) gen(g, v.arrayDimensions.emplace());
}
inline void gen(Gen& g, Variant& v)
{
    unsigned const k = g.decide("variant", 4);
    if (k == 0) { g.ref.put(0); return; }
    if (k == 1) genVariant(g, v, 11, 0);
    if (k == 2) genVariant(g, v, 12, 1);
    if (k == 3) genVariant(g, v, 5, 2);
}
inline bool same(Variant const& a, Variant const& b)
{
    if (!a.value != !b.value) return false;
    if (!a.value) return true;
    if (a.value->index() != b.value->index()) return false;
    if (!sameOpt(a.arrayDimensions, b.arrayDimensions)) return false;
    bool r = true;
    std::visit([&](auto const& x)
    {
        using T = std::decay_t<decltype(x)>;
        r = same(x, std::get<T>(*b.value));
    }, *a.value);
    return r;
}
inline void gen(Gen& g, DataValue& v)
{
    bool const val = g.flag("value"), st = g.flag("status"), sts = g.flag("srcTs"), sps = g.flag("srcPs"), vts = g.flag("srvTs"), vps = g.flag("srvPs");
    g.ref.put((uint8_t)((val ? 1 : 0) | (st ? 2 : 0) | (sts ? 4 : 0) | (vts ? 8 : 0) | (sps ? 16 : 0) | (vps ? 32 : 0)));
    if (val) genVariant(g, v.value, g.flag("text value") ? 12 : 7, 0);
    if (st) gen(g, v.status.emplace());
    if (sts) gen(g, v.sourceTimestampt.emplace());
    if (sps) gen(g, v.sourcePicoSeconds.emplace());
    if (vts) gen(g, v.serverTimeStampt.emplace());
    if (vps) gen(g, v.serverPicoSeconds.emplace());
}
inline bool same(DataValue const& a, DataValue const& b)
{
    return same(a.value, b.value) && sameOpt(a.status, b.status) && sameOpt(a.sourceTimestampt, b.sourceTimestampt) && sameOpt(a.sourcePicoSeconds, b.sourcePicoSeconds)
        && sameOpt(a.serverTimeStampt, b.serverTimeStampt) && sameOpt(a.serverPicoSeconds, b.serverPicoSeconds);
}
// Software certificates are modelled as bytes in the code; only the empty list is meaningful.
inline void genEmpty(Gen& g, DynamicArray<Byte>& v) { v.clear(); g.ref.le(0, 4); }

template <auto N> void gen(Gen& g, StaticArray<Byte, N>& v) { for (auto& x : v) gen(g, x); }
template <auto N> bool same(StaticArray<Byte, N> const& a, StaticArray<Byte, N> const& b)
{
    bool r = true;
    for (size_t i = 0; i < N; ++i) r = same(a[i], b[i]) && r;
    return r;
}

template <class... A> void genAll(Gen& g, A&... a) { (gen(g, a), ...); }
// MSG(Type, f1, f2, ...): fields in wire order
#define EVAL(...) EV1(EV1(EV1(__VA_ARGS__)))
#define EV1(...) EV2(EV2(EV2(__VA_ARGS__)))
#define EV2(...) __VA_ARGS__
#define PAREN ()
#define MAP(m, ...) __VA_OPT__(EVAL(MAP_(m, __VA_ARGS__)))
#define MAP_(m, a, ...) m(a) __VA_OPT__(MAPA PAREN (m, __VA_ARGS__))
#define MAPA() MAP_
#define GENF(f) gen(g, v.f);
#define SAMEF(f) r = same(x.f, y.f) && r;
#define MSG(T, ...) \
    inline void gen(Gen& g, T& v) { MAP(GENF, __VA_ARGS__) } \
    inline bool same(T const& x, T const& y) { bool r = true; MAP(SAMEF, __VA_ARGS__) return r; }

MSG(MessageHeader, messageType, isFinal, messageSize)
MSG(UaMessageHeader, messageType, isFinal, messageSize, secureChannelId)
MSG(HelloMessage, protocolVersion, receiveBufferSize, sendBufferSize, maxMessageSize, maxChunkCount, endpointUrl)
MSG(AcknowledgeMessage, protocolVersion, receiveBufferSize, sendBufferSize, maxMessageSize, maxChunkCount)
MSG(ErrorMessage, error, reason)
MSG(ReverseHelloMessage, serverUri, endpointUrl)
MSG(UaSecurityHeader, securityPolicyUri, senderCertificate, receiverCertificateThumbprint)
MSG(UaSecurityTokenHeader, tokenId)
MSG(UaSequenceHeader, sequenceNumber, requestId)
MSG(UaRequestHeader, authentificationToken, timestamp, requestHandle, returnDignostics, auditEntityId, timeoutHint, additionalHeader)
MSG(UaResponseHeader, timestamp, requestHandle, serviceResult, serviceDiagnostics, stringTable, additionalHeader)
MSG(UaOpenSecureChannelReq, requestHdr, clientProtocolVer, securityTokenRequestType, securityMode, clientNonce, requestLifetime)
MSG(UaChannelSecurityToken, secureChannelId, tokenId, createdAt, revisedLifetime)
MSG(UaOpenSecureChannelRsp, responseHdr, serverProtocolVer, securityToken, serverNonce)
MSG(UaCloseSecureChannelReq, requestHdr)
MSG(UaCloseSecureChannelRsp, responseHdr)
MSG(UaGetEndpointsReq, requestHdr, endpointUrl, localeIds, profileUris)
MSG(UaApplicationDescription, applicationUri, productUri, applicationName, applicationType, gatewayServerUri, discoveryProfileUri, discoveryUrls)
MSG(UaUserTokenPolicy, policyId, tokenType, issuedTokenType, issuerEndpointUrl, securityPolicyUri)
MSG(UaEndpointDescription, endpointUrl, server, serverCertificate, securityMode, securityPolicyUri, userIdentityTokens, transportProfileUri, securityLevel)
MSG(UaGetEndpointsRsp, responseHdr, endpointDescription)
MSG(UaSignatureData, algorithm, signature)
MSG(UaCreateSessionReq, requestHdr, clientDescription, serverUri, endpointUrl, sessionName, clientNonce, clientCertificate, requestedSessionTimeout, maxResponseMessageSize)
inline void gen(Gen& g, UaCreateSessionRsp& v)
{
    genAll(g, v.responseHdr, v.sessionId, v.authenticationToken, v.revisedSessionTimeout, v.serverNonce, v.serverCertificate, v.serverEndpoints);
    genEmpty(g, v.signedSoftwareCertificate);
    genAll(g, v.serverSignature, v.maxRequestMessageSize);
}
inline bool same(UaCreateSessionRsp const& x, UaCreateSessionRsp const& y)
{
    return same(x.responseHdr, y.responseHdr) && same(x.sessionId, y.sessionId) && same(x.authenticationToken, y.authenticationToken) && same(x.revisedSessionTimeout, y.revisedSessionTimeout)
        && same(x.serverNonce, y.serverNonce) && same(x.serverCertificate, y.serverCertificate) && same(x.serverEndpoints, y.serverEndpoints)
        && same(x.signedSoftwareCertificate, y.signedSoftwareCertificate) && same(x.serverSignature, y.serverSignature) && same(x.maxRequestMessageSize, y.maxRequestMessageSize);
}
MSG(UaCloseSessionReq, requestHdr, deleteSubscriptions)
MSG(UaCloseSessionRsp, responseHdr)
inline void gen(Gen& g, UaActivateSessionReq& v)
{
    genAll(g, v.requestHdr, v.clientSignature);
    genEmpty(g, v.clientSoftwareCertificates);
    genAll(g, v.localeIds, v.userIdentityToken, v.userTokenSignature);
}
inline bool same(UaActivateSessionReq const& x, UaActivateSessionReq const& y)
{
    return same(x.requestHdr, y.requestHdr) && same(x.clientSignature, y.clientSignature) && same(x.clientSoftwareCertificates, y.clientSoftwareCertificates)
        && same(x.localeIds, y.localeIds) && same(x.userIdentityToken, y.userIdentityToken) && same(x.userTokenSignature, y.userTokenSignature);
}
MSG(UaActivateSessionRsp, responseHdr, serverNonce, results, diagnosticInfos)
MSG(ReadValueId, nodeId, attributeId, indexRange, dataEncoding)
MSG(UaReadReq, requestHdr, maxAge, timestampsToReturn, nodesToRead)
MSG(UaReadRsp, responseHdr, results, diagnosticInfos)
// a service message starts with the identifier of its encoding (OPC UA part 6, A.3: NodeIds)
template <class D> struct WireId;
#define WID(D, n) template <> struct WireId<D> { static constexpr unsigned id = n; };
WID(UaOpenSecureChannelReq, 446) WID(UaOpenSecureChannelRsp, 449) WID(UaCloseSecureChannelReq, 452) WID(UaCloseSecureChannelRsp, 455)
WID(UaGetEndpointsReq, 428) WID(UaGetEndpointsRsp, 431) WID(UaCreateSessionReq, 461) WID(UaCreateSessionRsp, 464)
WID(UaActivateSessionReq, 467) WID(UaActivateSessionRsp, 470) WID(UaCloseSessionReq, 473) WID(UaCloseSessionRsp, 476) WID(UaReadReq, 631) WID(UaReadRsp, 634)
template <class D, DataTypeId Id> void gen(Gen& g, UaMsgCont<D, Id>& v)
{
    g.ref.put(1); g.ref.put(0); g.ref.le(WireId<D>::id, 2);
    gen(g, v.msg);
}
template <class D, DataTypeId Id> bool same(UaMsgCont<D, Id> const& x, UaMsgCont<D, Id> const& y) { return same(x.eNodeId, y.eNodeId) && same(x.msg, y.msg); }
} // namespace app::ua
