// Modbus/TCP codec: wire format, round trip, refusal of malformed frames.
#include "sym.h"
#include "Logger.hpp"
#include "ModbusCodec.hpp"
#include "fake.h"
#include <cstdlib>
using namespace app;
using namespace app::modbus;

namespace
{
struct Req { AduRequest a; uint8_t data[300]; Req() { std::memset(&a, 0x5a, sizeof(a)); std::memset(data, 0x5a, sizeof(data)); a.data = data; } };
uint8_t const* wire(PduBuffer const& b) { return b.begin(); }
unsigned be(uint8_t const* p) { return (unsigned)p[0] << 8 | p[1]; }
void load(PduBuffer& b, void const* p, unsigned n) { b.reset(); std::memcpy(b.begin(), p, n); b.seek(n); }
bool supported(uint8_t f) { return (f >= 1 && f <= 6) || f == 16; }
void fields(AduRequest& a)
{
    a.clientId = 7;
    a.transactId = sym<uint32_t>("transact");
    a.addr = sym<uint16_t>("addr");
    a.startItem = sym<uint16_t>("start");
}
void header(PduBuffer const& b, AduRequest const& a, unsigned pkt, uint8_t func)
{
    uint8_t const* w = wire(b);
    CHECK(b.size() == 6 + pkt, "frame length");
    CHECK(be(w) == (a.transactId & 0xffff), "transaction id on the wire");
    CHECK(be(w + 2) == 0, "protocol id on the wire");
    CHECK(be(w + 4) == pkt, "length field on the wire");
    CHECK(w[6] == a.addr, "unit address on the wire");
    CHECK(w[7] == func, "function code on the wire");
    CHECK(be(w + 8) == a.startItem, "start item on the wire");
}
// a receiver sees the frame as sent
void received(PduBuffer& in, PduBuffer const& out)
{
    load(in, wire(out), out.size());
    ModbusCodec c(in);
    CHECK(c.isAduHdrReceived() && c.isAduDataLenValid() && c.isAduReceived() && c.isAduValid(), "an encoded frame is not recognised as complete and valid");
}
void same(AduRequest const& a, AduRequest const& b)
{
    CHECK(b.transactId == (a.transactId & 0xffff), "decoded transaction id");
    CHECK(b.func == a.func, "decoded function");
    CHECK(b.addr == a.addr, "decoded address");
    CHECK(b.startItem == a.startItem, "decoded start item");
}
}

extern "C" void h_mb_req_read()
{
    fake::quiet();
    Req q; fields(q.a);
    uint8_t const f = (uint8_t)(1 + choose("func", 4));
    q.a.func = static_cast<ModbusFunction>(f);
    q.a.numItems = sym<uint16_t>("items");
    q.a.numBytes = sym<uint16_t>("bytes");
    PduBuffer b; ModbusCodec c(b);
    bool const ok = c.encode(q.a);
    unsigned const limit = f <= 2 ? 2000 : 125, hard = f <= 2 ? 2008 : 125;
    sym_trace(ok);
    if (!ok)
    {
        CHECK(q.a.addr > 247 || q.a.numItems == 0 || q.a.numItems > limit, "a valid read request is refused");
        sym_reach("refused");
        return;
    }
    CHECK(q.a.addr <= 247, "an invalid unit address is encoded");
    CHECK(q.a.numItems <= hard, "a read whose response can not fit a frame is encoded");
    header(b, q.a, 6, f);
    CHECK(be(wire(b) + 10) == q.a.numItems, "item count on the wire");
    PduBuffer in; received(in, b);
    Req r; ModbusCodec d(in);
    CHECK(d.decode(r.a), "an encoded request is not decoded");
    same(q.a, r.a);
    CHECK(r.a.numItems == q.a.numItems, "decoded item count");
    CHECK(r.a.numBytes == 0, "a read request carries no data");
    sym_reach("read-ok");
}
extern "C" void h_mb_req_single()
{
    fake::quiet();
    Req q; fields(q.a);
    bool const coil = chooseBool("coil");
    q.a.func = coil ? ModbusFunction::forceSingleCoil : ModbusFunction::presetSingleRegister;
    q.a.numItems = sym<uint16_t>("items");
    q.a.numBytes = sym<uint16_t>("bytes");
    q.data[0] = sym<uint8_t>("d0"); q.data[1] = sym<uint8_t>("d1");
    PduBuffer b; ModbusCodec c(b);
    bool const ok = c.encode(q.a);
    bool const valid = q.a.addr <= 247 && q.a.numItems == 0 && q.a.numBytes == 2 && (!coil || (q.data[1] == 0 && (q.data[0] == 0 || q.data[0] == 0xff)));
    sym_trace(ok);
    if (!ok) { CHECK(!valid, "a valid single write is refused"); sym_reach("refused"); return; }
    CHECK(q.a.addr <= 247 && q.a.numBytes == 2, "an invalid single write is encoded");
    header(b, q.a, 6, coil ? 5 : 6);
    uint8_t const* w = wire(b);
    if (coil)
    {
        CHECK(w[11] == 0 && (w[10] == 0 || w[10] == 0xff), "a coil value goes over the wire as FF00 or 0000");
        CHECK(w[10] == q.data[0], "coil value on the wire");
    }
    else CHECK(be(w + 10) == (q.data[0] | (unsigned)q.data[1] << 8), "register value is big-endian on the wire");
    PduBuffer in; received(in, b);
    Req r; ModbusCodec d(in);
    CHECK(d.decode(r.a), "an encoded request is not decoded");
    same(q.a, r.a);
    CHECK(r.a.numBytes == 2 && r.data[0] == q.data[0] && r.data[1] == q.data[1], "decoded value");
    CHECK(r.a.numItems == 0, "decoded item count of a single write");
    sym_reach(coil ? "coil-ok" : "reg-ok");
}
extern "C" void h_mb_req_multi()
{
    fake::quiet();
    Req q; fields(q.a);
    q.a.func = ModbusFunction::presetMultipleRegisters;
    unsigned const n = choose("n", 128);
    q.a.numItems = (uint16_t)n;
    q.a.numBytes = (uint16_t)(chooseBool("wrongbytes") ? n * 2 + 1 : n * 2);
    sym_make(q.data, 2 * n, "data");
    PduBuffer b; ModbusCodec c(b);
    bool const ok = c.encode(q.a);
    sym_trace(ok);
    if (!ok) { CHECK(q.a.addr > 247 || n == 0 || n > 123 || q.a.numBytes != 2 * n, "a valid multiple write is refused"); sym_reach("refused"); return; }
    CHECK(q.a.addr <= 247 && q.a.numBytes == 2 * n && n <= 123, "an invalid multiple write is encoded");
    header(b, q.a, 7 + 2 * n, 16);
    uint8_t const* w = wire(b);
    CHECK(be(w + 10) == n && w[12] == 2 * n, "item and byte count on the wire");
    for (unsigned i = 0; i < n; ++i) CHECK(be(w + 13 + 2 * i) == (q.data[2 * i] | (unsigned)q.data[2 * i + 1] << 8), "register values are big-endian on the wire");
    PduBuffer in; received(in, b);
    Req r; ModbusCodec d(in);
    CHECK(d.decode(r.a), "an encoded request is not decoded");
    same(q.a, r.a);
    CHECK(r.a.numItems == n && r.a.numBytes == 2 * n, "decoded counts");
    CHECK(std::memcmp(r.data, q.data, 2 * n) == 0, "decoded values");
    sym_reach("multi-ok");
}
extern "C" void h_mb_req_func()
{
    fake::quiet();
    Req q; fields(q.a);
    uint8_t const f = sym<uint8_t>("func");
    ASSUME(!supported(f));
    q.a.func = static_cast<ModbusFunction>(f);
    q.a.numItems = sym<uint16_t>("items"); q.a.numBytes = 0;
    PduBuffer b; ModbusCodec c(b);
    CHECK(!c.encode(q.a), "a request with an unsupported function is encoded");
    uint8_t w[12] = {0, 1, 0, 0, 0, 6, 1, f, 0, 0, 0, 0};
    sym_make(w + 8, 4, "rest");
    PduBuffer in; load(in, w, 12);
    Req r; ModbusCodec d(in);
    CHECK(!d.decode(r.a), "a request with an unsupported function is decoded");
    sym_reach("unsupported");
}
// ------------------------------------------------------------------ responses
namespace
{
void rfields(AduRespond& a)
{
    a.transactId = sym<uint16_t>("transact");
    a.addr = sym<uint16_t>("addr");
    ASSUME(a.addr <= 247);
    a.error = ModbusError::noerror;
    a.startItem = sym<uint16_t>("start");
    a.numItems = sym<uint16_t>("items");
    a.numBytes = 0;
    std::memset(a.data, 0x5a, sizeof(a.data));
}
void rheader(PduBuffer const& b, AduRespond const& a, unsigned pkt, uint8_t func)
{
    uint8_t const* w = wire(b);
    CHECK(b.size() == 6 + pkt, "response length");
    CHECK(be(w) == a.transactId, "response transaction id on the wire");
    CHECK(be(w + 2) == 0 && be(w + 4) == pkt, "response header on the wire");
    CHECK(w[6] == a.addr && w[7] == func, "response address and function on the wire");
}
void rsame(AduRespond const& a, AduRespond const& b)
{
    CHECK(b.transactId == a.transactId && b.func == a.func && b.addr == a.addr && b.error == a.error, "decoded response header");
}
}
extern "C" void h_mb_rsp_read()
{
    fake::quiet();
    AduRespond a; rfields(a);
    bool const in4 = chooseBool("input");
    a.func = in4 ? ModbusFunction::readInputRegisters : ModbusFunction::readHoldingRegisters;
    unsigned const n = choose("n", 254);
    a.numBytes = (uint16_t)n;
    sym_make(a.data, n, "data");
    PduBuffer b; ModbusCodec c(b);
    bool const ok = c.encode(a);
    sym_trace(ok);
    if (!ok) { CHECK(n % 2 || n > 250, "a valid read response is refused"); sym_reach("refused"); return; }
    CHECK(n % 2 == 0, "half a register is encoded");
    if (n > 250) return;
    rheader(b, a, 3 + n, in4 ? 4 : 3);
    CHECK(wire(b)[8] == n, "byte count on the wire");
    for (unsigned i = 0; i < n; i += 2) CHECK(be(wire(b) + 9 + i) == (a.data[i] | (unsigned)a.data[i + 1] << 8), "register values are big-endian on the wire");
    PduBuffer in; received(in, b);
    AduRespond r; ModbusCodec d(in);
    CHECK(d.decode(r), "an encoded response is not decoded");
    rsame(a, r);
    CHECK(r.numBytes == n && std::memcmp(r.data, a.data, n) == 0, "decoded register values");
    sym_reach("rsp-read-ok");
}
extern "C" void h_mb_rsp_write()
{
    fake::quiet();
    AduRespond a; rfields(a);
    unsigned const k = choose("kind", 3);
    a.func = k == 0 ? ModbusFunction::forceSingleCoil : k == 1 ? ModbusFunction::presetSingleRegister : ModbusFunction::presetMultipleRegisters;
    a.numBytes = k == 2 ? 0 : sym<uint16_t>("bytes");
    a.data[0] = sym<uint8_t>("d0"); a.data[1] = sym<uint8_t>("d1");
    PduBuffer b; ModbusCodec c(b);
    bool const ok = c.encode(a);
    sym_trace(ok);
    bool const valid = k == 2 || (a.numBytes == 2 && (k == 1 || (a.data[1] == 0 && (a.data[0] == 0 || a.data[0] == 0xff))));
    if (!ok) { CHECK(!valid, "a valid write response is refused"); sym_reach("refused"); return; }
    CHECK(valid, "an invalid write response is encoded");
    rheader(b, a, 6, k == 0 ? 5 : k == 1 ? 6 : 16);
    uint8_t const* w = wire(b);
    CHECK(be(w + 8) == a.startItem, "start item on the wire");
    if (k == 0) CHECK(w[10] == a.data[0] && w[11] == 0, "coil value on the wire");
    if (k == 1) CHECK(be(w + 10) == (a.data[0] | (unsigned)a.data[1] << 8), "register value is big-endian on the wire");
    if (k == 2) CHECK(be(w + 10) == a.numItems, "item count on the wire");
    PduBuffer in; received(in, b);
    AduRespond r; ModbusCodec d(in);
    CHECK(d.decode(r), "an encoded response is not decoded");
    rsame(a, r);
    CHECK(r.startItem == a.startItem, "decoded start item");
    if (k == 2) CHECK(r.numItems == a.numItems && r.numBytes == 0, "decoded item count");
    else CHECK(r.numBytes == 2 && r.data[0] == a.data[0] && r.data[1] == a.data[1], "decoded value");
    sym_reach(k == 0 ? "coil-ok" : k == 1 ? "reg-ok" : "multi-ok");
}
extern "C" void h_mb_rsp_exc()
{
    fake::quiet();
    AduRespond a; rfields(a);
    uint8_t const f = sym<uint8_t>("func");
    ASSUME(supported(f));
    a.func = static_cast<ModbusFunction>(f);
    uint8_t const e = sym<uint8_t>("error");
    ASSUME(e >= 1 && e <= 11 && e != 9);
    a.error = static_cast<ModbusError>(e);
    a.numBytes = sym<uint16_t>("bytes");
    PduBuffer b; ModbusCodec c(b);
    CHECK(c.encode(a), "an exception response is refused");
    rheader(b, a, 3, f | 0x80);
    CHECK(wire(b)[8] == e, "exception code on the wire");
    PduBuffer in; received(in, b);
    AduRespond r; ModbusCodec d(in);
    CHECK(d.decode(r), "an exception response is not decoded");
    rsame(a, r);
    sym_reach("exc-ok");
}
// ------------------------------------------------------------------ arbitrary received bytes
namespace
{
// two receivers that got the same n bytes but have different old content behind them
void twice(PduBuffer& x, PduBuffer& y, unsigned n)
{
    static uint8_t bx[280], by[280];
    sym_make(bx, 280, "rx");
    std::memset(by, 0, sizeof(by));
    std::memcpy(by, bx, n);
    sym_make(by + n, 280 - n, "old");
    load(x, bx, n); std::memcpy(x.begin(), bx, 280);
    load(y, by, n); std::memcpy(y.begin(), by, 280);
}
bool complete(PduBuffer& x)
{
    ModbusCodec c(x);
    return c.isAduHdrReceived() && c.isAduDataLenValid() && c.isAduReceived() && c.isAduValid();
}
unsigned frameLen()
{
    uint16_t v = sym<uint16_t>("len");
    ASSUME(v < (THOROUGH ? 280 : 264));
    return (unsigned)sym_concretize(v);
}
}
extern "C" void h_mb_dec_req()
{
    fake::quiet(LogLevel::LI);
    unsigned const n = frameLen();
    PduBuffer x, y;
    twice(x, y, n);
    bool const cx = complete(x), cy = complete(y);
    CHECK(cx == cy, "whether a frame is complete depends on bytes that were not received");
    bool const exact = n >= 6 && n == 6 + be(wire(x) + 4);
    CHECK(!cx || exact, "a frame is taken as complete although its length field differs from what was received");
    CHECK(cx || !exact || n > 259, "a complete frame is not recognised");
    if (!cx) { sym_reach("incomplete"); return; }
    Req a, b;
    ModbusCodec da(x), db(y);
    bool const oa = da.decode(a.a), ob = db.decode(b.a);
    CHECK(oa == ob, "whether a request is accepted depends on bytes that were not received");
    if (!oa) { sym_reach("malformed"); return; }
    uint8_t const* w = wire(x);
    uint8_t const f = w[7];
    CHECK(n >= 12 && be(w + 2) == 0 && w[6] <= 247 && supported(f), "a malformed request is accepted");
    CHECK(a.a.transactId == be(w) && a.a.addr == w[6] && (uint8_t)a.a.func == f && a.a.startItem == be(w + 8), "decoded request header");
    if (f <= 4)
    {
        CHECK(n == 12 && a.a.numItems == be(w + 10) && a.a.numBytes == 0, "decoded read request");
        CHECK(a.a.numItems <= (f <= 2 ? 2008 : 125), "a read whose response can not fit a frame is accepted");
    }
    else if (f == 16)
    {
        unsigned const items = be(w + 10);
        CHECK(n == 13u + w[12] && w[12] == 2 * items && a.a.numItems == items && a.a.numBytes == w[12], "decoded multiple write");
        for (unsigned i = 0; i + 13 < n; i += 2) CHECK(a.data[i] == w[14 + i] && a.data[i + 1] == w[13 + i], "decoded register values");
        for (unsigned i = n - 13; i < sizeof(a.data); ++i) CHECK(a.data[i] == 0x5a, "decoding writes beyond the received values");
    }
    else
    {
        CHECK(n == 12 && a.a.numBytes == 2, "decoded single write");
        CHECK(f == 5 ? (a.data[0] == w[10] && a.data[1] == w[11]) : (a.data[0] == w[11] && a.data[1] == w[10]), "decoded value");
    }
    sym_reach(f <= 4 ? "read" : f == 16 ? "multi" : "single");
}
extern "C" void h_mb_dec_rsp()
{
    fake::quiet(LogLevel::LI);
    unsigned const n = frameLen();
    PduBuffer x, y;
    twice(x, y, n);
    bool const cx = complete(x), cy = complete(y);
    CHECK(cx == cy, "whether a frame is complete depends on bytes that were not received");
    if (!cx) { sym_reach("incomplete"); return; }
    AduRespond a, b;
    std::memset(a.data, 0x5a, sizeof(a.data));
    a.numBytes = b.numBytes = 0;
    ModbusCodec da(x), db(y);
    bool const oa = da.decode(a), ob = db.decode(b);
    CHECK(oa == ob, "whether a response is accepted depends on bytes that were not received");
    if (!oa) { sym_reach("malformed"); return; }
    uint8_t const* w = wire(x);
    uint8_t const f = w[7] & 0x7f;
    CHECK(n >= 9 && be(w + 2) == 0, "a malformed response is accepted");
    CHECK(a.transactId == be(w) && a.addr == w[6] && (uint8_t)a.func == f, "decoded response header");
    if (w[7] & 0x80)
    {
        CHECK(n == 9 && w[8] != 0 && (uint8_t)a.error == w[8], "decoded exception");
        sym_reach("exception");
        return;
    }
    CHECK(a.error == ModbusError::noerror, "a normal response is decoded as an exception");
    if (f == 3 || f == 4)
    {
        CHECK(n == 9u + w[8] && w[8] % 2 == 0 && a.numBytes == w[8], "decoded read response");
        for (unsigned i = 0; i + 9 < n; i += 2) CHECK(a.data[i] == w[10 + i] && a.data[i + 1] == w[9 + i], "decoded register values");
        for (unsigned i = n - 9; i < sizeof(a.data); ++i) CHECK(a.data[i] == 0x5a, "decoding writes beyond the received values");
        sym_reach("read");
    }
    else
    {
        CHECK((f == 5 || f == 6 || f == 16) && n == 12 && a.startItem == be(w + 8), "decoded write response");
        if (f == 16) CHECK(a.numItems == be(w + 10), "decoded item count");
        sym_reach("write");
    }
}
