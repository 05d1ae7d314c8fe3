// Stand-in for the operating system: a descriptor table, epoll registrations and the calls the
// reactor layer makes.  Every call may fail while the fault budget lasts; which one fails is symbolic.
#pragma once
#include "sym.h"
#ifdef SYS_IMPL
#define CLOCK_IMPL
#endif
#include "clock.h"
#include <cerrno>
#include <cstdarg>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/timerfd.h>
#include <netinet/in.h>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <time.h>
#include <pthread.h>
#include <signal.h>

namespace sys
{
enum Kind { none, sock, lsock, conn, timer, event, epollk, other };
struct Fd
{
    bool open = false;
    Kind kind = none;
    bool nonblock = false;
    bool inEpoll = false;
    int ep = -1;                   // the epoll instance that watches it
    void* data = nullptr;
    uint32_t events = 0;
    uint64_t count = 0;            // eventfd counter
    bool armed = false;            // timerfd
    struct itimerspec its = {};
    bool reuse = false;            // SO_REUSEADDR
    bool accepted = false;         // a connection that was accepted
};
static const int MAXFD = 48, FIRST = 3;
extern Fd fds[MAXFD];
extern int faults;                 // how many more calls may fail
extern bool badClose;              // close() of a descriptor that is not open
extern bool badUse;                // any other call on a descriptor that is not open
extern int failed;                 // number of failures injected so far
extern struct sockaddr_in lastConnect, lastBind;
extern int nConnect, nBind, nSettime;
extern struct itimerspec lastIts;
extern int lastItsFlags;
extern bool noSignal;               // the current write can not raise SIGPIPE
extern bool sigpipeIgnored;
extern bool lingering;             // accepted connections that were closed linger and occupy the server's address

inline bool fail(char const* what)
{
    if (faults <= 0) return false;
    uint8_t f = sym<uint8_t>(what);
    if (f != 1) return false;
    --faults; ++failed;
    return true;
}
inline int newFd(Kind k)
{
    for (int i = FIRST; i < MAXFD; ++i) if (!fds[i].open) { fds[i] = Fd{}; fds[i].open = true; fds[i].kind = k; return i; }
    errno = EMFILE;
    return -1;
}
inline bool valid(int fd) { return fd >= FIRST && fd < MAXFD && fds[fd].open; }
inline int nOpen(Kind k) { int n = 0; for (int i = FIRST; i < MAXFD; ++i) if (fds[i].open && fds[i].kind == k) ++n; return n; }
inline int nOpenAll() { int n = 0; for (int i = FIRST; i < MAXFD; ++i) if (fds[i].open) ++n; return n; }
inline int nRegistered() { int n = 0; for (int i = FIRST; i < MAXFD; ++i) if (fds[i].open && fds[i].inEpoll) ++n; return n; }
// hooks a harness may set
extern ssize_t (*onRead)(int fd, void* p, size_t n);
extern ssize_t (*onWrite)(int fd, void const* p, size_t n);
extern int (*onEpollWait)(struct epoll_event* ev, int maxev);
extern int waitingOn;              // the epoll instance of the current epoll_wait
}

#ifdef SYS_IMPL
namespace sys
{
Fd fds[MAXFD];
int faults = 0, failed = 0;
bool badClose = false, badUse = false;
struct sockaddr_in lastConnect, lastBind;
int nConnect = 0, nBind = 0, nSettime = 0;
struct itimerspec lastIts;
int lastItsFlags = 0;
bool noSignal = false, sigpipeIgnored = false, lingering = false;
ssize_t (*onRead)(int, void*, size_t) = nullptr;
ssize_t (*onWrite)(int, void const*, size_t) = nullptr;
int (*onEpollWait)(struct epoll_event*, int) = nullptr;
int waitingOn = -1;
}
using namespace sys;
extern "C" {
int __wrap_socket(int dom, int type, int)
{
    if (fail("socket.fail")) { errno = EMFILE; return -1; }
    CHECK(dom == AF_INET && (type & 0xf) == SOCK_STREAM, "TCP/IPv4 sockets are used");
    int fd = newFd(sock);
    if (fd >= 0 && (type & SOCK_NONBLOCK)) fds[fd].nonblock = true;
    return fd;
}
int __wrap_fcntl(int fd, int cmd, long arg)        // called like the variadic one
{
    if (!valid(fd)) { badUse = true; errno = EBADF; return -1; }
    if (cmd == F_GETFL) return O_RDWR | (fds[fd].nonblock ? O_NONBLOCK : 0);
    if (fail("fcntl.fail")) { errno = EINVAL; return -1; }
    if (cmd == F_SETFL) fds[fd].nonblock = ((int)arg & O_NONBLOCK) != 0;
    return 0;
}
int __wrap_ioctl(int fd, unsigned long req, void* arg)
{
    if (!valid(fd)) { badUse = true; errno = EBADF; return -1; }
    if (fail("fcntl.fail")) { errno = EINVAL; return -1; }
    int on = 0;
    if (req == FIONBIO) { memcpy(&on, arg, sizeof on); fds[fd].nonblock = on != 0; }
    return 0;
}
int __wrap_connect(int fd, struct sockaddr const* a, socklen_t n)
{
    if (!valid(fd)) { badUse = true; errno = EBADF; return -1; }
    if (fail("connect.fail")) { errno = ENETUNREACH; return -1; }
    CHECK(n == sizeof(struct sockaddr_in), "connect: address length");
    CHECK(fds[fd].nonblock, "connecting blocks the event loop");
    memcpy(&lastConnect, a, sizeof lastConnect); ++nConnect;
    fds[fd].kind = conn;
    errno = EINPROGRESS;
    return -1;
}
int __wrap_bind(int fd, struct sockaddr const* a, socklen_t n)
{
    if (!valid(fd)) { badUse = true; errno = EBADF; return -1; }
    if (fail("bind.fail")) { errno = EADDRINUSE; return -1; }
    CHECK(n == sizeof(struct sockaddr_in), "bind: address length");
    if (lingering && !fds[fd].reuse) { errno = EADDRINUSE; return -1; }
    memcpy(&lastBind, a, sizeof lastBind); ++nBind;
    return 0;
}
int __wrap_listen(int fd, int)
{
    if (!valid(fd)) { badUse = true; errno = EBADF; return -1; }
    if (fail("listen.fail")) { errno = EADDRINUSE; return -1; }
    fds[fd].kind = lsock;
    return 0;
}
int __wrap_accept(int fd, struct sockaddr*, socklen_t*)
{
    if (!valid(fd)) { badUse = true; errno = EBADF; return -1; }
    if (fail("accept.fail")) { errno = EMFILE; return -1; }
    int const c = newFd(conn);
    if (c >= 0) fds[c].accepted = true;
    return c;
}
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) { int r = __wrap_accept(fd, a, l); if (r >= 0 && (fl & SOCK_NONBLOCK)) fds[r].nonblock = true; return r; }
int __wrap_setsockopt(int fd, int level, int opt, void const* v, socklen_t n)
{
    if (!valid(fd)) { badUse = true; errno = EBADF; return -1; }
    int on = 0;
    if (level == SOL_SOCKET && (opt == SO_REUSEADDR || opt == SO_REUSEPORT) && n >= sizeof on) { memcpy(&on, v, sizeof on); fds[fd].reuse = on != 0; }
    return 0;
}
int __wrap_getsockopt(int fd, int, int, void* v, socklen_t* n)
{
    if (!valid(fd)) { badUse = true; errno = EBADF; return -1; }
    memset(v, 0, *n);
    return 0;
}
int __wrap_shutdown(int fd, int)
{
    if (!valid(fd)) { badUse = true; errno = EBADF; return -1; }
    return 0;
}
int __wrap_epoll_create1(int) { return newFd(epollk); }
int __wrap_epoll_create(int) { return newFd(epollk); }
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev)
{
    if (!valid(ep) || !valid(fd)) { badUse = true; errno = EBADF; return -1; }
    Fd& f = fds[fd];
    if (op == EPOLL_CTL_ADD)
    {
        if (f.inEpoll) { badUse = true; errno = EEXIST; return -1; }
        if (fail("epoll_add.fail")) { errno = ENOSPC; return -1; }
        f.inEpoll = true; f.ep = ep; f.data = ev->data.ptr; f.events = ev->events;
    }
    else if (op == EPOLL_CTL_MOD)
    {
        if (!f.inEpoll) { badUse = true; errno = ENOENT; return -1; }
        if (fail("epoll_mod.fail")) { errno = ENOSPC; return -1; }
        f.data = ev->data.ptr; f.events = ev->events;
    }
    else
    {
        if (!f.inEpoll) { badUse = true; errno = ENOENT; return -1; }
        f.inEpoll = false;
    }
    return 0;
}
int __wrap_epoll_wait(int ep, struct epoll_event* ev, int maxev, int)
{
    if (!valid(ep)) { badUse = true; errno = EBADF; return -1; }
    waitingOn = ep;
    return onEpollWait ? onEpollWait(ev, maxev) : 0;
}
int __wrap_epoll_pwait(int ep, struct epoll_event* ev, int maxev, int t, sigset_t const*) { return __wrap_epoll_wait(ep, ev, maxev, t); }
int __wrap_eventfd(unsigned c, int fl)
{
    if (fail("eventfd.fail")) { errno = EMFILE; return -1; }
    int fd = newFd(event); if (fd >= 0) { fds[fd].count = c; fds[fd].nonblock = (fl & O_NONBLOCK) != 0; }
    return fd;
}
int __wrap_timerfd_create(int clk, int fl)
{
    if (fail("timerfd_create.fail")) { errno = EMFILE; return -1; }
    CHECK(clk == CLOCK_MONOTONIC, "timers use the monotonic clock");
    int fd = newFd(timer); if (fd >= 0) fds[fd].nonblock = (fl & TFD_NONBLOCK) != 0;
    return fd;
}
int __wrap_timerfd_settime(int fd, int flags, struct itimerspec const* v, struct itimerspec*)
{
    if (!valid(fd) || fds[fd].kind != timer) { badUse = true; errno = EBADF; return -1; }
    if (v->it_value.tv_nsec < 0 || v->it_value.tv_nsec > 999999999 || v->it_value.tv_sec < 0) { errno = EINVAL; return -1; }
    fds[fd].its = *v; lastIts = *v; lastItsFlags = flags; ++nSettime;
    fds[fd].armed = v->it_value.tv_sec != 0 || v->it_value.tv_nsec != 0;
    return 0;
}
int __wrap_close(int fd)
{
    if (!valid(fd)) { badClose = true; errno = EBADF; return -1; }
    if (fds[fd].accepted) lingering = true;
    fds[fd] = Fd{};
    return 0;
}
#ifdef SYS_THREADS
#define STALE(fd) ((fd) != -1)     // an event that was reported before its source was closed: read(-1) fails and does no harm
#else
#define STALE(fd) true
#endif
ssize_t __wrap_read(int fd, void* p, size_t n)
{
    if (!valid(fd)) { badUse = badUse || STALE(fd); errno = EBADF; return -1; }
    if (onRead)
    {
        ssize_t const r = onRead(fd, p, n);
        if (r == -1 && errno == EAGAIN) CHECK(fds[fd].nonblock, "a read blocks the event loop");
        return r;
    }
    if (fds[fd].kind == event && fds[fd].count)
    {
        memcpy(p, &fds[fd].count, 8); fds[fd].count = 0; return 8;
    }
    CHECK(fds[fd].nonblock, "a read blocks the event loop");
    errno = EAGAIN; return -1;
}
ssize_t __wrap_write(int fd, void const* p, size_t n)
{
    if (!valid(fd)) { badUse = true; errno = EBADF; return -1; }
    if (onWrite) return onWrite(fd, p, n);
    if (fds[fd].kind == event) { uint64_t u; memcpy(&u, p, 8); fds[fd].count += u; return 8; }
    sym_check_read(p, n);
    return (ssize_t)n;
}
int __wrap_pthread_attr_init(pthread_attr_t*) { return 0; }
int __wrap_pthread_attr_destroy(pthread_attr_t*) { return 0; }
int __wrap_pthread_attr_setschedpolicy(pthread_attr_t*, int) { return 0; }
#ifndef SYS_THREADS
int __wrap_pthread_join(pthread_t, void**) { return 0; }
int __wrap_pthread_create(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*) { return 0; }
#endif
ssize_t __wrap_send(int fd, void const* p, size_t n, int flags) { noSignal = (flags & MSG_NOSIGNAL) != 0; ssize_t r = __wrap_write(fd, p, n); noSignal = false; return r; }
sighandler_t __wrap_signal(int s, sighandler_t h) { if (s == SIGPIPE) sigpipeIgnored = h == SIG_IGN; return SIG_DFL; }
int __wrap_sigaction(int s, struct sigaction const* a, struct sigaction*) { if (s == SIGPIPE && a) sigpipeIgnored = a->sa_handler == SIG_IGN; return 0; }
ssize_t __wrap_sendto(int fd, void const* p, size_t n, int flags, struct sockaddr const*, socklen_t) { return __wrap_send(fd, p, n, flags); }
ssize_t __wrap_recv(int fd, void* p, size_t n, int) { return __wrap_read(fd, p, n); }
ssize_t __wrap_recvfrom(int fd, void* p, size_t n, int, struct sockaddr*, socklen_t*) { return __wrap_read(fd, p, n); }
int __wrap_eventfd_read(int fd, uint64_t* v) { return __wrap_read(fd, v, 8) == 8 ? 0 : -1; }
int __wrap_eventfd_write(int fd, uint64_t v) { return __wrap_write(fd, &v, 8) == 8 ? 0 : -1; }
}
#endif
