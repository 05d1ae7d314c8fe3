// Stand-ins for the reactor services (timers, links, acceptors, message transport) behind the
// repository's own interfaces.  What they deliver is chosen by the harness, symbolically.
#pragma once
#include "sym.h"
#include <functional>
#include <stdexcept>
#include <vector>
#include "ReactorInterface.hpp"
#include "SenderInterface.hpp"
#include "MsgInterface.hpp"
#include "MaxMsgSize.hpp"
#include "LinkInterface.hpp"
#include "AcceptorInterface.hpp"
#include "TimerInterface.hpp"
#include "Logger.hpp"
#ifndef FAKE_N
#define FAKE_N 12
#endif
#ifndef THOROUGH
#define THOROUGH 0
#endif

namespace fake
{
using namespace app::reactor;

inline void quiet(app::LogLevel l = app::LogLevel::NA)
{
    for (int i = 0; i < static_cast<int>(app::LogTask::NUM); ++i) app::Logger::getInst().setTaskLogLevel(static_cast<app::LogTask>(i), l);
}

struct Timer : TimerInterface
{
    bool live = false, armed = false;
    int nStart = 0;
    long timeout = 0;
    TimerHandler handler;
    void start(long t) override { armed = true; timeout = t; ++nStart; }
    void stop() override { armed = false; }
    void release() override { live = false; armed = false; }
    void fire() { armed = false; TimerHandler h = handler; h(); }
};

struct Frame { unsigned len; uint8_t data[4200]; };

struct Link : LinkInterface
{
    bool live = false;
    enum { closed, connecting, connected } st = closed;
    LinkHandler handler;
    int fd = -1;
    // what the next receive() returns
    uint8_t const* rx = nullptr;
    unsigned rxLen = 0;
    int rxStatus = LinkResult::na;
    // observations
    int nConnect = 0, nClose = 0, nSend = 0, nRecv = 0;
    LinkAddr addr{};
    uint8_t tx[4200];
    unsigned txLen = 0;
    bool keepTx = false;                       // append instead of keeping only the last frame
    bool (*sendOk)(Link&) = nullptr;
    void (*onSend)(Link&) = nullptr;
    bool (*connectOk)(Link&) = nullptr;

    int fileDescriptor() const override { return fd; }
    void setFileDescriptor(int v) override { fd = v; }
    void onFileDescriptorEvent(int) override {}
    void connect(LinkAddr const& a) override
    {
        ++nConnect;
        if (st != closed) throw std::runtime_error("already connected");
        if (connectOk && !connectOk(*this)) throw std::runtime_error("connect");
        addr = a; st = connecting;
    }
    void close() override { if (st != closed) ++nClose; st = closed; rx = nullptr; rxLen = 0; }
    void release() override { close(); live = false; }
    int send(void const* p, std::size_t n) override
    {
        sym_check_read(p, n);
        if (st == closed) return -1;
        if (sendOk && !sendOk(*this)) return -1;
        ++nSend;
        CHECK(n <= sizeof(tx), "a frame longer than the largest message is sent");
        if (!keepTx) txLen = 0;
        CHECK(txLen + n <= sizeof(tx), "more data is sent than the scenario allows");
        std::memcpy(tx + txLen, p, n);
        txLen += (unsigned)n;
        if (onSend) onSend(*this);
        return 1;
    }
    LinkResult receive(std::uint8_t* p, std::size_t n) override
    {
        ++nRecv;
        sym_check_write(p, n);
        LinkResult r{};
        r.len = 0;
        if (st == closed) { r.status = LinkResult::error; return r; }
        if (rxStatus == LinkResult::closed) { r.status = LinkResult::closed; return r; }
        if (rxStatus == LinkResult::error) { r.status = LinkResult::error; return r; }
        if (!rxLen) { r.status = LinkResult::na; return r; }
        unsigned const k = rxLen < n ? rxLen : (unsigned)n;
        std::memcpy(p, rx, k);
        rx += k; rxLen -= k;
        r.status = LinkResult::ok; r.len = (int)k;
        return r;
    }
    void setHandler(LinkHandler h) override { handler = h; }
    void event(LinkEvent e) { LinkHandler h = handler; h(e); }
};

struct Acceptor : AcceptorInterface
{
    bool live = false, listening = false;
    AcceptorHandler handler;
    LinkAddr addr{};
    bool (*acceptOk)() = nullptr;
    Link* last = nullptr;
    int nextFd = 100;
    void listen(LinkAddr const& a) override { addr = a; listening = true; }
    void accept(LinkInterface& l) override
    {
        last = nullptr;
        if (acceptOk && !acceptOk()) throw std::runtime_error("accept");
        last = static_cast<Link*>(&l);
        last->st = Link::connected;
        last->setFileDescriptor(nextFd++);
    }
    void close() override { listening = false; }
    void release() override { listening = false; live = false; }
    void event() { AcceptorHandler h = handler; h(); }
};

struct Reactor : ReactorInterface
{
    static const int N = FAKE_N;
    Timer timers[N];
    Link links[N];
    Acceptor acceptors[2];
    int nTimersLive = 0, nLinksLive = 0, nAccLive = 0;
    bool (*timerOk)() = nullptr;
    bool (*linkOk)() = nullptr;
    std::vector<std::pair<MsgId, MsgHandler>> handlers;

    void registerHandler(MsgId id, MsgHandler h) override { handlers.push_back({id, h}); }
    void registerHandlers(MsgHandlerVector const& v) override { for (auto const& x : v) handlers.push_back({std::get<0>(x), std::get<1>(x)}); }
    TimerPtr createTimer(TimerHandler h) override
    {
        if (timerOk && !timerOk()) throw std::runtime_error("no timer");
        for (auto& t : timers) if (!t.live)
        {
            t.live = true; t.armed = false; t.handler = h; ++nTimersLive;
            return TimerPtr(&t, [this](TimerInterface* p) { CHECK(static_cast<Timer*>(p)->live, "a timer is released twice"); p->release(); --nTimersLive; });
        }
        throw std::runtime_error("no timer");
    }
    LinkPtr createLink(LinkHandler h) override
    {
        if (linkOk && !linkOk()) throw std::runtime_error("no link");
        for (auto& l : links) if (!l.live)
        {
            l.live = true; l.st = Link::closed; l.handler = h; l.rx = nullptr; l.rxLen = 0; l.rxStatus = LinkResult::na; l.fd = -1; l.txLen = 0; l.nSend = 0; ++nLinksLive;
            return LinkPtr(&l, [this](LinkInterface* p) { CHECK(static_cast<Link*>(p)->live, "a link is released twice"); p->release(); --nLinksLive; });
        }
        throw std::runtime_error("no link");
    }
    AcceptorPtr createAcceptor(AcceptorHandler h) override
    {
        for (auto& a : acceptors) if (!a.live)
        {
            a.live = true; a.handler = h; ++nAccLive;
            return AcceptorPtr(&a, [this](AcceptorInterface* p) { p->release(); --nAccLive; });
        }
        throw std::runtime_error("no acceptor");
    }
    void send(MsgInterface const&) override {}
    void start() override {}
    void stop() override {}

    bool deliver(MsgInterface const& m)
    {
        for (auto const& h : handlers) if (h.first == m.getMsgId()) { h.second(m); return true; }
        return false;
    }
};
// calls into the code under test the way the reactor does: exceptions end the event, not the process
template <class F> inline bool guarded(F f)
{
    try { f(); return true; }
    catch (std::exception const&) { return false; }
}
struct Sender : SenderInterface
{
    void (*on)(MsgInterface const&) = nullptr;
    void send(MsgInterface const& m) override
    {
        std::size_t const n = m.size();
        CHECK(n <= maxMsgSize, "a message larger than the largest message size is sent");
        sym_check_read(&m, n);
        if (on) on(m);
    }
};
} // namespace fake
