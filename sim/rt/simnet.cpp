// simnet: in-memory sockets with simulated delivery. Every delay, split, short transfer, interrupted call, reset and
// refusal is a choice of the seeded scheduler (ST_NET). Blocking calls block in simulated time.
#include "siminternal.h"
#include "simnet.h"
#include <arpa/inet.h>
#include <deque>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>
using namespace sim;

namespace {
const int BASE = 500, MAXFD = 400;
struct Seg { std::string d; size_t off; uint64_t at; };
struct Pipe {   // one direction of a connection
    std::deque<Seg> q; uint64_t lastAt; size_t inPipe, cap; bool fin; uint64_t finAt; bool rst; uint64_t rstAt; bool readerGone, writerGone, local, event; uint64_t count;
    Pipe() : lastAt(0), inPipe(0), cap(65536), fin(false), finAt(0), rst(false), rstAt(0), readerGone(false), writerGone(false), local(false), event(false), count(0) {}
};
struct Sock;
struct Pending { Sock *s; uint64_t at; };
enum { NEW, LISTEN, CONN };
struct Sock {
    int kind, refs; bool nonblock, shutListen, rdShut, wrShut, rstSeen, server; Pipe *in, *out; uint16_t port, peerPort; std::deque<Pending> backlog; int backlogMax; uint64_t rcvTo, sndTo;
    Sock() : kind(NEW), refs(1), nonblock(false), shutListen(false), rdShut(false), wrShut(false), rstSeen(false), server(false), in(NULL), out(NULL), port(0), peerPort(0), backlogMax(0), rcvTo(0), sndTo(0) {}
};
struct State { Sock *fd[MAXFD]; std::map<int, Sock *> ports; std::set<void *> addrs; SimNetCfg cfg; uint16_t eph; uint64_t conns; };
State *N = NULL; char g_waitObj;
State &net() { if (!N) { N = new State(); memset(N->fd, 0, sizeof N->fd); N->eph = 40000; N->conns = 0; } return *N; }
#define REALNET(ret, name, args) typedef ret (*name##_t) args; static name##_t real_##name() { static name##_t f = NULL; if (!f) f = (name##_t) dlsym(RTLD_NEXT, #name); return f; }
REALNET(int, socket, (int, int, int)) REALNET(int, bind, (int, const sockaddr *, socklen_t)) REALNET(int, listen, (int, int)) REALNET(int, accept, (int, sockaddr *, socklen_t *)) REALNET(int, connect, (int, const sockaddr *, socklen_t))
REALNET(int, pipe, (int *)) REALNET(int, pipe2, (int *, int)) REALNET(int, socketpair, (int, int, int, int *)) REALNET(int, eventfd, (unsigned int, int))
REALNET(ssize_t, send, (int, const void *, size_t, int)) REALNET(ssize_t, recv, (int, void *, size_t, int)) REALNET(int, shutdown, (int, int)) REALNET(int, poll, (pollfd *, nfds_t, int)) REALNET(int, select, (int, fd_set *, fd_set *, fd_set *, timeval *))
REALNET(int, setsockopt, (int, int, int, const void *, socklen_t)) REALNET(int, getsockopt, (int, int, int, void *, socklen_t *)) REALNET(int, getaddrinfo, (const char *, const char *, const addrinfo *, addrinfo **)) REALNET(void, freeaddrinfo, (addrinfo *)) REALNET(int, fcntl, (int, int, ...)) REALNET(int, ioctl, (int, unsigned long, ...))
REALNET(int, getsockname, (int, sockaddr *, socklen_t *)) REALNET(int, getpeername, (int, sockaddr *, socklen_t *))

Sock *get(int fd) { if (fd < BASE || fd >= BASE + MAXFD || !N) return NULL; return N->fd[fd - BASE]; }
int newFd(Sock *s) { State &n = net(); int open = 0; if (s->server) for (int i = 0; i < MAXFD; ++i) if (n.fd[i] && (n.fd[i]->server || n.fd[i]->kind == LISTEN)) open++; if (n.cfg.fdLimit && open >= n.cfg.fdLimit) { errno = EMFILE; return -1; } for (int i = 0; i < MAXFD; ++i) if (!n.fd[i]) { n.fd[i] = s; return BASE + i; } errno = EMFILE; return -1; }
bool bit(int kind) { return (cfg().netFaultMask >> kind) & 1; }
uint32_t dice(int kind, uint32_t n) { if (!bit(kind)) return 0; uint32_t v = choose(ST_NET, n, cfg().netFaultProb); if (v) { countFault(kind); traceLine("net: %s %u", faultName[kind], v); } return v; }
uint64_t delay() { static const uint64_t d[] = { 0, 20000, 200000, 1000000, 5000000, 30000000, 120000000, 700000000, 2500000000ull }; return 5000 + d[dice(F_NETDELAY, 9)]; }
void wakeNet() { wakeAll(&g_waitObj); }
bool waitNet(uint64_t until) { bool to = false; blockOn(&g_waitObj, until, to); return to; }
size_t avail(Pipe *p, uint64_t t) { if (p->event) return p->count ? 8 : 0; size_t n = 0; for (auto &s : p->q) { if (s.at > t) break; n += s.d.size() - s.off; } return n; }
uint64_t nextArrival(Pipe *p, uint64_t t) { uint64_t best = UINT64_MAX; for (auto &s : p->q) if (s.at > t) { best = s.at; break; } if (p->fin && p->finAt > t && p->finAt < best) best = p->finAt; if (p->rst && p->rstAt > t && p->rstAt < best) best = p->rstAt; return best; }
void dropInFlight(Pipe *p, uint64_t t) { while (!p->q.empty() && p->q.back().at > t) { p->inPipe -= p->q.back().d.size() - p->q.back().off; p->q.pop_back(); } }
bool rstNow(Sock *s, uint64_t t) { return s->in && s->in->rst && s->in->rstAt <= t; }
bool peerGone(Sock *s, uint64_t t) { return s->out->readerGone && s->out->writerGone ? t >= s->out->finAt : false; }
short readyFor(Sock *s, uint64_t t) {
    short r = 0;
    if (s->kind == LISTEN) { if (s->shutListen) r |= POLLIN | POLLHUP; for (auto &p : s->backlog) if (p.at <= t) { r |= POLLIN; break; } return r; }
    if (s->kind == NEW) return POLLOUT | POLLHUP;
    bool rst = rstNow(s, t), eof = (s->in->fin && s->in->finAt <= t) || s->rdShut;
    if (avail(s->in, t) || eof || rst) r |= POLLIN;
    if (rst && !s->rstSeen) r |= POLLERR;
    if (rst || (eof && s->wrShut)) r |= POLLHUP;
    if (rst || s->wrShut || s->out->inPipe < s->out->cap) r |= POLLOUT;
    return r;
}
uint64_t nextEvent(Sock *s, uint64_t t) { uint64_t best = UINT64_MAX; if (s->kind == LISTEN) { for (auto &p : s->backlog) if (p.at > t && p.at < best) best = p.at; return best; } if (s->in) best = std::min(best, nextArrival(s->in, t)); return best; }
void reset(Sock *s, uint64_t t) { // send RST to the peer of s
    s->out->rst = true; s->out->rstAt = std::max<uint64_t>(t + 5000, 0); dropInFlight(s->out, t); countFault(F_NETRESET); traceLine("net: reset towards port %u", s->peerPort);
}
}
void sim_net_config(const SimNetCfg &c) { net().cfg = c; }
int sim_net_open_server() { int n = 0; if (N) for (int i = 0; i < MAXFD; ++i) if (N->fd[i] && (N->fd[i]->server || N->fd[i]->kind == LISTEN)) n++; return n; }
int sim_net_open() { int n = 0; if (N) for (int i = 0; i < MAXFD; ++i) if (N->fd[i]) n++; return n; }
uint64_t sim_net_conns() { return N ? N->conns : 0; }
bool sim_net_listening(int port) { return N && N->ports.count(port) && N->ports[port]->kind == LISTEN && !N->ports[port]->shutListen; }
void sim_net_abort(int fd) { Sock *s = get(fd); if (!s) return; if (s->kind == CONN) { reset(s, now()); s->out->writerGone = true; s->in->readerGone = true; } struct linger l = { 1, 0 }; (void) l; sim_net_close(fd); }
bool sim_net_is(int fd) { return inSim() && fd >= BASE && fd < BASE + MAXFD; }
void sim_net_reset() { N = NULL; }
int sim_net_close(int fd) {
    yieldPoint(); Sock *s = get(fd); if (!s) { errno = EBADF; traceLine("net: close of a descriptor that is not open"); return -1; }
    net().fd[fd - BASE] = NULL; traceLine("net: close %d", fd);
    if (s->kind == LISTEN && s->refs > 1) return 0;  // somebody still waits in accept: the kernel keeps the socket until that call returns
    uint64_t t = now();
    if (s->kind == LISTEN) { net().ports.erase(s->port); for (auto &p : s->backlog) { if (p.s->out) { reset(p.s, t); p.s->out->writerGone = true; p.s->in->readerGone = true; } } s->backlog.clear(); }
    if (s->kind == CONN) {
        if (!s->out->rst && avail(s->in, UINT64_MAX)) reset(s, t);   // unread data: the peer gets a reset
        else if (!s->out->fin) { s->out->fin = true; s->out->finAt = std::max(s->out->lastAt, t) + 5000; }
        s->out->writerGone = true; s->in->readerGone = true;
    }
    wakeNet(); return 0;
}
ssize_t sim_net_send(int fd, const void *b, size_t n, int flags) {
    yieldPoint(); Sock *s = get(fd); if (!s) { errno = EBADF; return -1; } if (s->kind != CONN) { errno = ENOTCONN; return -1; }
    if (s->out->event) { uint64_t v = 1; memcpy(&v, b, std::min<size_t>(n, 8)); s->out->count += v; wakeNet(); return 8; }
    bool nb = s->nonblock || (flags & MSG_DONTWAIT); uint64_t t0 = now(); size_t done = 0;
    while (true) {
        uint64_t t = now();
        if (s->wrShut || rstNow(s, t)) {
            if (done) return done;
            if (!s->wrShut && !s->rstSeen) { s->rstSeen = true; errno = ECONNRESET; return -1; }
            traceLine("net: send %d -> EPIPE", fd); if (!(flags & MSG_NOSIGNAL)) raise(SIGPIPE); errno = EPIPE; return -1;
        }
        if (s->out->readerGone && n && s->out->local) { if (!(flags & MSG_NOSIGNAL)) raise(SIGPIPE); errno = EPIPE; return -1; }
        if (s->out->readerGone && n) { if (!s->in->rst) { s->in->rst = true; s->in->rstAt = std::max(t, s->in->finAt) + 10000; countFault(F_NETRESET); } return n; } // the peer is gone: this write still succeeds and provokes a reset
        size_t room = s->out->inPipe < s->out->cap ? s->out->cap - s->out->inPipe : 0;
        if (room && n) {
            size_t k = std::min(room, n - done); bool shortW = false;
            if (k > 1 && !s->out->local && dice(F_NETSHORTWRITE, 2)) { k = 1 + choose(ST_NET, (uint32_t) std::min<size_t>(k - 1, 1 << 30), 1.0); shortW = true; }
            Seg g; g.d.assign((const char *) b + done, k); g.off = 0; g.at = s->out->local ? now() : std::max(s->out->lastAt, now() + delay()); s->out->lastAt = g.at; if (!s->out->readerGone) { s->out->q.push_back(g); s->out->inPipe += k; }
            done += k; wakeNet(); if (shortW) { traceLine("net: send %d -> %zu of %zu", fd, done, n); return done; }
            if (done == n) return n;
            continue;
        }
        if (n == 0) return 0;
        if (nb) { if (done) return done; errno = EAGAIN; return -1; }
        if (!done && dice(F_NETEINTR, 2)) { errno = EINTR; return -1; }
        uint64_t until = nextArrival(s->in, t); if (s->sndTo) until = std::min(until, t0 + s->sndTo);
        if (s->sndTo && t >= t0 + s->sndTo) { if (done) return done; errno = EAGAIN; return -1; }
        s->refs++; waitNet(until); s->refs--; if (get(fd) != s) { errno = EBADF; return done ? (ssize_t) done : -1; }
    }
}
ssize_t sim_net_recv(int fd, void *b, size_t n, int flags) {
    yieldPoint(); Sock *s = get(fd); if (!s) { errno = EBADF; return -1; } if (s->kind != CONN) { errno = ENOTCONN; return -1; }
    bool nb = s->nonblock || (flags & MSG_DONTWAIT); uint64_t t0 = now(); size_t done = 0;
    while (true) {
        uint64_t t = now(); size_t a = avail(s->in, t);
        if (a && s->in->event) { uint64_t v = s->in->count; s->in->count = 0; memcpy(b, &v, std::min<size_t>(n, 8)); return 8; }
        if (a && n) {
            size_t k = std::min(a, n - done); bool shortR = false; if (k > 1 && !(flags & MSG_PEEK) && !s->in->local && dice(F_NETSHORTREAD, 2)) { k = 1 + choose(ST_NET, (uint32_t) std::min<size_t>(k - 1, 1 << 30), 1.0); shortR = true; }
            size_t c = 0; if (flags & MSG_PEEK) { for (auto &g : s->in->q) { if (c == k) break; size_t m = std::min(k - c, g.d.size() - g.off); memcpy((char *) b + c, g.d.data() + g.off, m); c += m; } return c; }
            while (c < k) { Seg &g = s->in->q.front(); size_t m = std::min(k - c, g.d.size() - g.off); memcpy((char *) b + done + c, g.d.data() + g.off, m); g.off += m; c += m; if (g.off == g.d.size()) s->in->q.pop_front(); }
            s->in->inPipe -= k; done += k; wakeNet(); traceLine("net: recv %d -> %zu", fd, k); if (!(flags & MSG_WAITALL) || done == n || shortR) return done; continue;
        }
        if (done && n == done) return done;
        if (n == 0) return 0;
        if (rstNow(s, t)) { if (done) return done; if (s->rstSeen) return 0; s->rstSeen = true; errno = ECONNRESET; return -1; }
        if (s->rdShut || (s->in->fin && s->in->finAt <= t)) return done;
        if (nb) { if (done) return done; errno = EAGAIN; return -1; }
        if (dice(F_NETEINTR, 2)) { errno = EINTR; return -1; }
        uint64_t until = nextArrival(s->in, t); if (s->rcvTo) { if (t >= t0 + s->rcvTo) { errno = EAGAIN; return done ? (ssize_t) done : -1; } until = std::min(until, t0 + s->rcvTo); }
        s->refs++; waitNet(until); s->refs--; if (get(fd) != s) { errno = EBADF; return done ? (ssize_t) done : -1; }
    }
}
extern "C" {
int socket(int d, int ty, int pr) {
    if (!inSim()) return real_socket()(d, ty, pr);
    yieldPoint(); if (dice(F_CONNFAIL, 2) && net().cfg.socketFails) { errno = ENFILE; return -1; } Sock *s = new Sock(); s->nonblock = ty & SOCK_NONBLOCK; int fd = newFd(s); if (fd < 0) delete s; return fd;
}
static int localPair(int fd[2], bool both, int fl) {
    Sock *a = new Sock(), *b = new Sock(); Pipe *x = new Pipe(), *y = new Pipe(); x->local = y->local = true; a->kind = b->kind = CONN; a->in = b->out = x; b->in = a->out = y; if (!both) { a->wrShut = true; b->rdShut = true; } a->nonblock = b->nonblock = fl & O_NONBLOCK;
    fd[0] = newFd(a); if (fd[0] < 0) return -1; fd[1] = newFd(b); if (fd[1] < 0) { net().fd[fd[0] - BASE] = NULL; return -1; } return 0;
}
int pipe2(int fd[2], int fl) { if (!inSim()) return real_pipe2()(fd, fl); yieldPoint(); return localPair(fd, false, fl); }
int pipe(int fd[2]) { if (!inSim()) return real_pipe()(fd); return pipe2(fd, 0); }
int socketpair(int d, int ty, int pr, int fd[2]) { if (!inSim()) return real_socketpair()(d, ty, pr, fd); yieldPoint(); return localPair(fd, true, ty & SOCK_NONBLOCK ? O_NONBLOCK : 0); }
int eventfd(unsigned int v, int fl) { if (!inSim()) return real_eventfd()(v, fl); yieldPoint(); Sock *a = new Sock(); Pipe *x = new Pipe(); x->local = true; x->event = true; x->count = v; a->kind = CONN; a->in = a->out = x; a->nonblock = fl & O_NONBLOCK; return newFd(a); }
int bind(int fd, const sockaddr *a, socklen_t l) { if (!sim_net_is(fd)) return real_bind()(fd, a, l); Sock *s = get(fd); if (!s) { errno = EBADF; return -1; } uint16_t p = ntohs(((const sockaddr_in *) a)->sin_port); if (!p) p = net().eph++; if (net().ports.count(p)) { errno = EADDRINUSE; return -1; } s->port = p; net().ports[p] = s; return 0; }
int listen(int fd, int n) { if (!sim_net_is(fd)) return real_listen()(fd, n); yieldPoint(); Sock *s = get(fd); if (!s) { errno = EBADF; return -1; } s->kind = LISTEN; s->backlogMax = n < 1 ? 1 : n; wakeNet(); return 0; }
int accept4(int fd, sockaddr *a, socklen_t *l, int fl) {
    if (!sim_net_is(fd)) { errno = EBADF; return -1; }
    yieldPoint(); Sock *s = get(fd); if (!s) { errno = EBADF; return -1; } if (s->kind != LISTEN) { errno = EINVAL; return -1; }
    while (true) {
        uint64_t t = now(); if (s->shutListen) { errno = EINVAL; return -1; }
        for (size_t i = 0; i < s->backlog.size(); ++i) if (s->backlog[i].at <= t) {
            Sock *c = s->backlog[i].s; 
            if (bit(F_CONNFAIL) && rstNow(c, t)) { s->backlog.erase(s->backlog.begin() + i); errno = ECONNABORTED; traceLine("net: accept -> aborted connection"); return -1; }
            int nfd = newFd(c); if (nfd < 0) { traceLine("net: accept -> too many open files"); return -1; }
            s->backlog.erase(s->backlog.begin() + i); c->nonblock = fl & SOCK_NONBLOCK; wakeNet();
            if (a && l) { sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(c->peerPort); in.sin_addr.s_addr = htonl(INADDR_LOOPBACK); memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; }
            traceLine("net: accept %d -> %d", fd, nfd); return nfd;
        }
        if (s->nonblock) { errno = EAGAIN; return -1; }
        if (dice(F_NETEINTR, 2)) { errno = EINTR; return -1; }
        s->refs++; waitNet(nextEvent(s, t)); s->refs--;   // closing the descriptor elsewhere does not end this wait (as in Linux)
    }
}
int accept(int fd, sockaddr *a, socklen_t *l) { if (!sim_net_is(fd)) { if (!inSim()) return real_accept()(fd, a, l); errno = EBADF; return -1; } return accept4(fd, a, l, 0); }
int connect(int fd, const sockaddr *a, socklen_t l) {
    if (!sim_net_is(fd)) return real_connect()(fd, a, l);
    yieldPoint(); Sock *s = get(fd); if (!s) { errno = EBADF; return -1; } if (s->kind == CONN) { errno = EISCONN; return -1; }
    uint16_t p = ntohs(((const sockaddr_in *) a)->sin_port);
    if (net().cfg.refuse && dice(F_CONNFAIL, 2)) { errno = ECONNREFUSED; return -1; }
    while (true) {
        std::map<int, Sock *>::iterator it = net().ports.find(p); if (it == net().ports.end() || it->second->kind != LISTEN || it->second->shutListen) { errno = ECONNREFUSED; return -1; }
        Sock *ls = it->second; if ((int) ls->backlog.size() > ls->backlogMax) { bool to = waitNet(now() + 1000000000ull); (void) to; continue; }
        Sock *c = new Sock(); c->server = true; c->kind = CONN; s->kind = CONN; Pipe *up = new Pipe(), *down = new Pipe(); size_t cap = net().cfg.buffer ? net().cfg.buffer : 65536; up->cap = down->cap = cap; up->lastAt = down->lastAt = 0;
        s->in = down; s->out = up; c->in = up; c->out = down; s->port = net().eph++; s->peerPort = p; c->port = p; c->peerPort = s->port; Pending q; q.s = c; q.at = now() + delay(); ls->backlog.push_back(q); net().conns++; wakeNet(); traceLine("net: connect %d to %u", fd, p); return 0;
    }
}
ssize_t send(int fd, const void *b, size_t n, int fl) { if (!sim_net_is(fd)) { if (inSim()) { errno = fd < 0 ? EBADF : ENOTSOCK; return -1; } return real_send()(fd, b, n, fl); } return sim_net_send(fd, b, n, fl); }
ssize_t recv(int fd, void *b, size_t n, int fl) { if (!sim_net_is(fd)) { if (inSim()) { errno = fd < 0 ? EBADF : ENOTSOCK; return -1; } return real_recv()(fd, b, n, fl); } return sim_net_recv(fd, b, n, fl); }
ssize_t sendto(int fd, const void *b, size_t n, int fl, const sockaddr *, socklen_t) { return send(fd, b, n, fl); }
ssize_t recvfrom(int fd, void *b, size_t n, int fl, sockaddr *, socklen_t *) { return recv(fd, b, n, fl); }
int shutdown(int fd, int how) {
    if (!sim_net_is(fd)) { if (inSim()) { errno = EBADF; return -1; } return real_shutdown()(fd, how); }
    yieldPoint(); Sock *s = get(fd); if (!s) { errno = EBADF; return -1; } traceLine("net: shutdown %d %d", fd, how);
    if (s->kind == LISTEN) { if (how != SHUT_WR) { s->shutListen = true; wakeNet(); } return 0; }
    if (s->kind != CONN) { errno = ENOTCONN; return -1; }
    if (how != SHUT_WR) s->rdShut = true;
    if (how != SHUT_RD && !s->wrShut) { s->wrShut = true; if (!s->out->fin) { s->out->fin = true; s->out->finAt = std::max(s->out->lastAt, now()) + 5000; } }
    wakeNet(); return 0;
}
int poll(pollfd *f, nfds_t n, int ms) {
    if (!inSim()) return real_poll()(f, n, ms);
    yieldPoint(); uint64_t t0 = now(), end = ms < 0 ? UINT64_MAX : t0 + (uint64_t) ms * 1000000ull;
    while (true) {
        uint64_t t = now(), next = end; int c = 0;
        for (nfds_t i = 0; i < n; ++i) { f[i].revents = 0; if (f[i].fd < 0) continue; Sock *s = get(f[i].fd); if (!s) { f[i].revents = POLLNVAL; c++; continue; } short r = readyFor(s, t); f[i].revents = r & (f[i].events | POLLERR | POLLHUP | POLLNVAL); if (f[i].revents) c++; else next = std::min(next, nextEvent(s, t)); }
        if (c || t >= end) return c;
        if (dice(F_NETEINTR, 2)) { errno = EINTR; return -1; }
        waitNet(next);
    }
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, timeval *tv) {
    if (!inSim()) return real_select()(n, r, w, e, tv);
    std::vector<pollfd> v; for (int i = 0; i < n; ++i) { short ev = (r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0); if (ev || (e && FD_ISSET(i, e))) { pollfd p; p.fd = i; p.events = ev; p.revents = 0; v.push_back(p); } }
    int k = poll(v.data(), v.size(), tv ? (int) (tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000) : -1); if (k < 0) return k;
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e); int c = 0;
    for (auto &p : v) { if ((p.events & POLLIN) && (p.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(p.fd, r); c++; } if ((p.events & POLLOUT) && (p.revents & (POLLOUT | POLLERR))) { FD_SET(p.fd, w); c++; } }
    return c;
}
int setsockopt(int fd, int lv, int o, const void *v, socklen_t l) {
    if (!sim_net_is(fd)) return real_setsockopt()(fd, lv, o, v, l);
    Sock *s = get(fd); if (!s) { errno = EBADF; return -1; }
    if (lv == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO)) { const timeval *t = (const timeval *) v; uint64_t ns = (uint64_t) t->tv_sec * 1000000000ull + t->tv_usec * 1000ull; (o == SO_RCVTIMEO ? s->rcvTo : s->sndTo) = ns; }
    return 0;
}
int getsockopt(int fd, int lv, int o, void *v, socklen_t *l) { if (!sim_net_is(fd)) return real_getsockopt()(fd, lv, o, v, l); Sock *s = get(fd); if (!s) { errno = EBADF; return -1; } if (v && l && *l >= sizeof(int)) *(int *) v = (lv == SOL_SOCKET && o == SO_ERROR && s->kind == CONN && rstNow(s, now())) ? ECONNRESET : 0; return 0; }
int getsockname(int fd, sockaddr *a, socklen_t *l) { if (!sim_net_is(fd)) return real_getsockname()(fd, a, l); Sock *s = get(fd); if (!s) { errno = EBADF; return -1; } sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(s->port); memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; return 0; }
int getpeername(int fd, sockaddr *a, socklen_t *l) { if (!sim_net_is(fd)) return real_getpeername()(fd, a, l); Sock *s = get(fd); if (!s || s->kind != CONN) { errno = ENOTCONN; return -1; } sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(s->peerPort); memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; return 0; }
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (!sim_net_is(fd)) return real_fcntl()(fd, cmd, arg);
    Sock *s = get(fd); if (!s) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0); if (cmd == F_SETFL) { s->nonblock = arg & O_NONBLOCK; return 0; } return 0;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
int ioctl(int fd, unsigned long rq, ...) {
    va_list ap; va_start(ap, rq); void *arg = va_arg(ap, void *); va_end(ap); if (!sim_net_is(fd)) return real_ioctl()(fd, rq, arg);
    Sock *s = get(fd); if (!s) { errno = EBADF; return -1; } if (rq == FIONBIO) s->nonblock = *(int *) arg != 0; else if (rq == FIONREAD) *(int *) arg = s->in ? (int) avail(s->in, now()) : 0; return 0;
}
int getaddrinfo(const char *h, const char *sv, const addrinfo *hint, addrinfo **res) {
    if (!inSim()) return real_getaddrinfo()(h, sv, hint, res);
    yieldPoint(); if (net().cfg.resolveFails && dice(F_CONNFAIL, 2)) return EAI_AGAIN;   // *res is left as it was
    addrinfo *first = NULL, *last = NULL; int n = net().cfg.addresses < 1 ? 1 : net().cfg.addresses;
    for (int i = 0; i < n; ++i) { addrinfo *a = (addrinfo *) calloc(1, sizeof(addrinfo)); sockaddr_in *in = (sockaddr_in *) calloc(1, sizeof(sockaddr_in)); in->sin_family = AF_INET; in->sin_addr.s_addr = htonl(INADDR_LOOPBACK); in->sin_port = htons(i + 1 < n ? 1 : (uint16_t) atoi(sv ? sv : "0")); a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_protocol = IPPROTO_TCP; a->ai_addr = (sockaddr *) in; a->ai_addrlen = sizeof(sockaddr_in); if (last) last->ai_next = a; else first = a; last = a; }
    net().addrs.insert(first); *res = first; return 0;
}
void freeaddrinfo(addrinfo *a) {
    if (!inSim()) { real_freeaddrinfo()(a); return; }
    if (!net().addrs.erase(a)) { fail("NET/bad-free", "freeaddrinfo called with an address that getaddrinfo did not return"); }
    while (a) { addrinfo *n = a->ai_next; free(a->ai_addr); free(a); a = n; }
}
}
