// Variable-size messages: the announced size covers the content, and the content survives the queue.
#include "fake.h"
#include "MsgMemStorage.hpp"
#include "MsgStore.hpp"
#include "MsgModbusAduReq.hpp"
#include "MsgModbusAduRsp.hpp"
#include "MsgModbusClientAduReq.hpp"
#include "MsgModbusClientAduRsp.hpp"
#include "MsgModbusConfigReq.hpp"
#include "MsgModbusConfigRsp.hpp"
#include "MsgUaCloseSecureChannelReq.hpp"
#include "MsgUaCloseSecureChannelRsp.hpp"
#include "MsgUaEncodedMessageReceiveInd.hpp"
#include "MsgUaEncodedMessageSendReq.hpp"
#include "MsgUaOpenSecureChannelReq.hpp"
#include "MsgUaOpenSecureChannelRsp.hpp"
#include "MsgUaSecuredMessageReceiveInd.hpp"
#include "MsgUaSecuredMessageSendReq.hpp"
using namespace app;
using app::reactor::MsgStore;
using app::reactor::maxMsgSize;
namespace
{
unsigned const shortMax = THOROUGH ? 40 : 20;
// sends a message through the queue of a reactor, which copies size() bytes, and hands the copy out
template <class M> M& transported(M const& m)
{
    static app::reactor::MsgMemStorage q(maxMsgSize, 2);
    alignas(16) static unsigned char out[maxMsgSize + 64];
    std::size_t const n = m.size();
    CHECK(n <= maxMsgSize, "a message that fits is larger than the largest message");
    CHECK(q.push(&m, n), "a message that fits is refused");
    std::memset(out, 0xcc, sizeof(out));
    CHECK(q.pop(out), "a message is lost");
    return *reinterpret_cast<M*>(out);
}
// any announced length: size() covers exactly the message
template <class M, class LEN> void sized(M& m, LEN& field, uint8_t const* data, uint32_t max)
{
    uint32_t const n = sym<uint32_t>("length");
    ASSUME(n <= max && (char const*)data - (char const*)&m + n <= maxMsgSize);
    field = (LEN)n;
    std::size_t const s = m.size();
    CHECK(s >= (std::size_t)((char const*)data - (char const*)&m) + n, "the size of a message does not cover its data");
    CHECK(s <= sizeof(M) + n, "the size of a message exceeds its content");
    sym_reach("sized");
}
template <class M, class LEN, class GET> void carried(MsgStore<M>& st, LEN M::*field, GET data)
{
    M& m = st.getMsg();
    unsigned const n = choose("n", shortMax);
    m.*field = (LEN)n;
    if (n) sym_make(data(m), n, "data");
    M& r = transported(m);
    CHECK(r.*field == n, "the length of a message is transported");
    CHECK(std::memcmp(data(m), data(r), n) == 0, "the data of a message is transported");
    CHECK(r.getMsgId() == m.getMsgId() && r.getCompId() == m.getCompId(), "a message keeps its identity");
    sym_reach("carried");
}
template <class M> void ua(bool sz)
{
    MsgStore<M> st; M& m = st.getMsg();
    if (sz) { sized(m, m.length, m.data, maxMsgSize); return; }
    m.connectionId = sym<uint32_t>("conn"); m.secureChannelId = sym<uint32_t>("chan"); m.chunkType = UaChunkType{UaChunkType::final};
    carried(st, &M::length, [](M& x) { return &x.data[0]; });
    M& r = transported(m);
    CHECK(r.connectionId == m.connectionId && r.secureChannelId == m.secureChannelId && r.chunkType.val == m.chunkType.val, "the fields of a message are transported");
}
template <class M> void uaEnc(bool sz)
{
    MsgStore<M> st; M& m = st.getMsg();
    if (sz) { sized(m, m.length, m.data, maxMsgSize); return; }
    m.hdr.connectionId = sym<uint32_t>("conn"); m.hdr.secureChannelId = sym<uint32_t>("chan"); m.hdr.requestId = sym<uint32_t>("req"); m.hdr.sessionId = sym<uint32_t>("sess");
    carried(st, &M::length, [](M& x) { return &x.data[0]; });
    M& r = transported(m);
    CHECK(r.hdr.connectionId == m.hdr.connectionId && r.hdr.secureChannelId == m.hdr.secureChannelId && r.hdr.requestId == m.hdr.requestId && r.hdr.sessionId == m.hdr.sessionId, "the fields of a message are transported");
}
template <class M> void mb(bool sz)
{
    MsgStore<M> st; M& m = st.getMsg();
    if (sz) { sized(m, m.numBytes, m.data, 65535); return; }
    m.transactId = sym<uint16_t>("tid");
    carried(st, &M::numBytes, [](M& x) { return &x.data[0]; });
    M& r = transported(m);
    CHECK(r.transactId == m.transactId, "the fields of a message are transported");
}
}
extern "C" void h_msg_sized()
{
    fake::quiet();
    bool const sz = chooseBool("anylength");
    switch (choose("type", 11))
    {
    case 0: ua<MsgUaCloseSecureChannelReq>(sz); break;
    case 1: ua<MsgUaCloseSecureChannelRsp>(sz); break;
    case 2: ua<MsgUaOpenSecureChannelReq>(sz); break;
    case 3: ua<MsgUaOpenSecureChannelRsp>(sz); break;
    case 4: ua<MsgUaSecuredMessageReceiveInd>(sz); break;
    case 5: ua<MsgUaSecuredMessageSendReq>(sz); break;
    case 6: uaEnc<MsgUaEncodedMessageReceiveInd>(sz); break;
    case 7: uaEnc<MsgUaEncodedMessageSendReq>(sz); break;
    case 8: mb<MsgModbusAduReq>(sz); break;
    case 9: mb<MsgModbusAduRsp>(sz); break;
    case 10: mb<MsgModbusClientAduRsp>(sz); break;
    }
}
extern "C" void h_msg_items()
{
    fake::quiet();
    MsgStore<MsgModbusClientAduReq> st;
    auto& m = st.getMsg();
    unsigned const n = 1 + choose("items", THOROUGH ? 3 : 2);
    m.numItems = (uint16_t)n;
    // items are filled in order, as the senders do
    uint16_t len[4];
    char const* end = (char const*)&m.items[0];
    for (unsigned i = 0; i < n; ++i)
    {
        auto& it = m.item((uint16_t)i);
        CHECK((char const*)&it >= end, "an item overlaps the one before it");
        CHECK(((uintptr_t)&it) % alignof(ModbusClientAduReqItem) == 0, "an item is misaligned");
        uint16_t l = sym<uint16_t>("bytes");
        ASSUME(l <= 34 || l == 246 || l == 250 || l == 260);
        len[i] = l = (uint16_t)sym_concretize(l);
        it.clientId = 10 + i; it.transactId = sym<uint32_t>("tid"); it.func = ModbusFunction::presetMultipleRegisters; it.addr = (uint16_t)i; it.startItem = 1; it.numItems = 2;
        it.numBytes = l;
        CHECK((char const*)it.data + l <= (char const*)&m + maxMsgSize, "an item lies outside the message");
        for (unsigned k = 0; k < l; ++k) it.data[k] = (uint8_t)(i * 50 + k);
        end = (char const*)it.data + l;
    }
    CHECK(m.size() >= (std::size_t)(end - (char const*)&m), "the size of a message does not cover its items");
    auto const& r = transported(m);
    CHECK(r.numItems == n, "the number of items is transported");
    for (unsigned i = 0; i < n; ++i)
    {
        auto const& a = r.item((uint16_t)i);
        auto const& b = m.item((uint16_t)i);
        CHECK(a.clientId == 10 + i && a.transactId == b.transactId && a.addr == i && a.numBytes == len[i], "an item is found again after transport");
        for (unsigned k = 0; k < len[i]; ++k) CHECK(a.data[k] == (uint8_t)(i * 50 + k), "the data of an item is transported");
    }
    sym_reach("items");
}
extern "C" void h_msg_config()
{
    fake::quiet();
    unsigned const n = choose("items", 6);
    MsgStore<MsgModbusConfigReq> st; auto& m = st.getMsg();
    m.numItems = n;
    for (unsigned i = 0; i < n; ++i) { m.items[i].id = sym<uint32_t>("id"); m.items[i].mode = ModbusConfig::Mode::client; sym_make(m.items[i].addr.data, 16, "addr"); m.items[i].addr.type = app::reactor::LinkAddr::Type::ipv4; }
    auto const& r = transported(m);
    CHECK(r.numItems == n, "the number of configured items is transported");
    for (unsigned i = 0; i < n; ++i) CHECK(r.items[i].id == m.items[i].id && r.items[i].mode == m.items[i].mode && std::memcmp(r.items[i].addr.data, m.items[i].addr.data, 16) == 0, "a configured item is transported");
    MsgStore<MsgModbusConfigRsp> st2; auto& q = st2.getMsg();
    q.numItems = n;
    for (unsigned i = 0; i < n; ++i) { q.items[i].id = sym<uint32_t>("id2"); q.items[i].status = chooseBool("status") ? MsgStatus::error : MsgStatus::success; }
    auto const& p = transported(q);
    for (unsigned i = 0; i < n; ++i) CHECK(p.items[i].id == q.items[i].id && p.items[i].status == q.items[i].status, "a configuration status is transported");
    sym_reach("config");
}
