#define SYS_IMPL
#include "sys.h"
#include <memory>
#include <stdexcept>
#include "Epoll.hpp"
#include "Link.hpp"
#include "Acceptor.hpp"

using namespace app::reactor;

static LinkAddr symAddr(uint8_t b[6])
{
    LinkAddr a{};
    sym_make(b, 6, "addr");
    a.type = LinkAddr::Type::ipv4;
    memcpy(a.data, b, 6);
    return a;
}
static void same(struct sockaddr_in const& s, uint8_t const b[6], char const* m)
{
    uint8_t w[6];
    memcpy(w, &s.sin_addr.s_addr, 4); memcpy(w + 4, &s.sin_port, 2);
    CHECK(s.sin_family == AF_INET, "address family");
    for (int i = 0; i < 6; ++i) sym_trace(w[i]);
    CHECK(memcmp(w, b, 6) == 0, m);
}

extern "C" void h_addr_connect()
{
    Epoll epoll(0);
    EpollInterface& ep = epoll;
    uint8_t b[6];
    LinkAddr a = symAddr(b);
    Link link(ep);
    link.connect(a);
    CHECK(sys::nConnect == 1, "one connect call");
    same(sys::lastConnect, b, "an outgoing connection goes to exactly the configured address and port");
    sym_reach("connected");
}
extern "C" void h_addr_listen()
{
    Epoll epoll(0);
    EpollInterface& ep = epoll;
    uint8_t b[6];
    LinkAddr a = symAddr(b);
    Acceptor acc(ep);
    acc.listen(a);
    CHECK(sys::nBind == 1, "one bind call");
    same(sys::lastBind, b, "a server listens on exactly the configured address and port");
    sym_reach("listening");
    // the address can be used again at once, whatever connections there were
    if (chooseBool("accepted"))
    {
        Link link(ep);
        acc.accept(link);
        if (chooseBool("first")) { link.close(); acc.close(); } else { acc.close(); link.close(); }
    }
    else acc.close();
    bool threw = false;
    try { acc.listen(a); } catch (std::exception const&) { threw = true; }
    CHECK(!threw, "a server can be started again on the address of an earlier one");
    same(sys::lastBind, b, "a server listens on exactly the configured address and port");
    sym_reach("again");
}
