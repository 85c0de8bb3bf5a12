// Simulated network: TCP byte streams with latency, segmentation and faults.
#include "core.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <ifaddrs.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <resolv.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
std::vector<std::shared_ptr<Conn>> conns;
std::vector<ConnFault> cfaults;
static std::map<std::string, std::string> names; // name -> ip
std::map<std::string, std::string> *client_dns = nullptr;
static std::set<std::pair<std::string, std::string>> cuts;
static int next_port = 40000;

struct Sock {
  enum K { Fresh, Listen, Stream } k = Fresh;
  bool nonblock = false;
  Time rcvto = 0, sndto = 0;
  Host *host = nullptr;
  Proc *proc = nullptr;
  int port = 0;
  int refs = 1;
  bool closed = false, shut_rd = false, shut_wr = false;
  int so_error = 0;
  bool connecting = false;
  // listener
  int backlog = 0;
  std::deque<std::shared_ptr<Conn>> acceptq;
  // stream
  std::shared_ptr<Conn> c;
  int side = 0;
  Dir &rx() { return c->d[1 - side]; }
  Dir &tx() { return c->d[side]; }
};
static std::map<std::pair<Host *, int>, std::shared_ptr<Sock>> listeners;

void set_name(const std::string &n, const std::string &ip) { names[n] = ip; }
static bool cut(Host *a, Host *b) {
  if (cuts.empty() || !a || !b) return false;
  return cuts.count({a->name, b->name}) || cuts.count({b->name, a->name});
}
static Host *host_by_ip(const std::string &ip) {
  for (auto &h : S->hosts) if (h.second->ip == ip) return h.second;
  return nullptr;
}
bool port_listening(Host *h, int port) { return listeners.count({h, port}) > 0; }

static Time lat() {
  Time t = S->k.lat_us * US + (S->k.jit_us ? (Time)S->rn.below((uint64_t)S->k.jit_us * US) : 0);
  if (S->k.losspm && S->rn.chance(S->k.losspm / 1000.0)) { // lost segment: retransmitted
    fired("segment_loss");
    t += 200 * MS * (1 + S->rn.below(4));
  }
  return t;
}
static void deliver(std::shared_ptr<Conn> c, int dir);
static void wake_ep(Conn *c, int side) {
  auto s = c->ep[side].lock();
  if (s) wake(s.get());
}
// As in Linux: data received before stays readable; a reset after a FIN is a broken pipe
static void set_rst(Conn *c, int side) {
  if (c->rst[side]) return;
  c->rst[side] = true;
  c->rsterr[side] = c->d[1 - side].fin_got ? EPIPE : ECONNRESET;
  wake_ep(c, side);
}
static void send_rst(std::shared_ptr<Conn> c, int toside) {
  Dir &d = c->d[1 - toside];
  Time t = std::max(S->now + lat(), d.last);
  d.last = t;
  at(t, [c, toside]() { set_rst(c.get(), toside); });
}
static void push_seg(std::shared_ptr<Conn> c, int dir, const std::string &data, bool fin) {
  Dir &d = c->d[dir];
  Time t = std::max(S->now + lat(), d.last);
  d.last = t;
  d.q.push_back({t, data, fin});
  d.inflight += data.size();
  at(t, [c, dir]() { deliver(c, dir); });
}
static void deliver(std::shared_ptr<Conn> c, int dir) {
  Dir &d = c->d[dir];
  int rside = 1 - dir;
  if (d.blackhole) return;
  if (cut(c->ch, c->sh)) return; // redelivered on heal
  if (d.stall_until > S->now) {
    at(d.stall_until, [c, dir]() { deliver(c, dir); });
    return;
  }
  bool any = false;
  while (!d.q.empty() && d.q.front().t <= S->now) {
    auto s = std::move(d.q.front());
    d.q.pop_front();
    d.inflight -= s.d.size();
    any = true;
    if (c->rst[rside]) continue;
    if (c->closed[rside]) {
      if (!s.d.empty() && !c->rst[1 - rside]) send_rst(c, 1 - rside);
      continue;
    }
    if (d.off > 65536) { d.buf.erase(0, d.off); d.off = 0; }
    d.buf += s.d;
    if (s.fin) d.fin_got = true;
  }
  if (any) { wake_ep(c.get(), rside); wake_ep(c.get(), dir); }
}
void partition(const std::string &a, const std::string &b, bool on) {
  if (on) { cuts.insert({a, b}); fired("partition"); }
  else { cuts.erase({a, b}); cuts.erase({b, a}); }
  if (!on)
    for (auto &c : conns)
      for (int d = 0; d < 2; d++)
        if (!c->d[d].q.empty()) { auto cc = c; at(S->now + lat(), [cc, d]() { deliver(cc, d); }); }
}
void heal_all() {
  cuts.clear();
  for (auto &c : conns)
    for (int d = 0; d < 2; d++)
      if (!c->d[d].q.empty()) { auto cc = c; at(S->now + lat(), [cc, d]() { deliver(cc, d); }); }
}

static void conn_fault_hit(std::shared_ptr<Conn> c, ConnFault *f) {
  fired("conn_" + f->act);
  c->faulted = true;
  mixs(f->act.c_str());
  tr("fault conn#%d %s dir%d after %ld", c->id, f->act.c_str(), f->dir, (long)f->after);
  if (f->act == "rst") {
    set_rst(c.get(), 0); set_rst(c.get(), 1);
  } else if (f->act == "fin") { // the stream ends here although the sender goes on
    Dir &d = c->d[f->dir];
    push_seg(c, f->dir, "", true);
    d.fin_sent = true;
  } else if (f->act == "stall") {
    c->d[f->dir].stall_until = S->now + f->dur;
  } else if (f->act == "hole") {
    c->d[f->dir].blackhole = true;
  }
}

// append data written by side's socket to the stream, applying connection faults
static void stream_send(std::shared_ptr<Conn> c, int dir, std::string data) {
  Dir &d = c->d[dir];
  for (auto &fp : d.faults) {
    ConnFault *f = fp.get();
    if (f->used) continue;
    if (d.sent + (int64_t)data.size() > f->after) {
      f->used = true;
      size_t k = (size_t)std::max<int64_t>(0, f->after - d.sent);
      if (f->act == "flip") {
        fired("conn_flip");
        c->faulted = true;
        if (k < data.size()) data[k] ^= 0x20;
        continue;
      }
      std::string head = data.substr(0, k);
      if (!head.empty()) push_seg(c, dir, head, false);
      d.sent += head.size();
      data = data.substr(k);
      conn_fault_hit(c, f);
      if (f->act == "rst" || f->act == "fin") { d.sent += data.size(); return; }
    }
  }
  d.sent += data.size();
  size_t o = 0;
  while (o < data.size()) {
    size_t n = data.size() - o;
    size_t m = (size_t)S->k.maxseg;
    if (n > m) n = m;
    if (S->k.maxseg < 16384) n = 1 + S->rn.below(n);
    push_seg(c, dir, data.substr(o, n), false);
    o += n;
  }
}

static std::shared_ptr<Sock> getsock(int fd) {
  Proc *p = cproc();
  auto i = p->fds.find(fd);
  if (i == p->fds.end()) return nullptr;
  return i->second.sock;
}
static int newfd(Proc *p) {
  int fd = 3;
  for (auto &e : p->fds) { if (e.first < 3) continue; if (e.first != fd) break; fd++; }
  return fd;
}
int alloc_fd(Proc *p) {
  if ((int)p->fds.size() >= p->fdlimit) { fired("fd_exhausted"); return -1; }
  return newfd(p);
}
int conn_of_fd(int fd) {
  auto s = getsock(fd);
  return s && s->c ? s->c->id : -1;
}
static void close_sock(std::shared_ptr<Sock> s, bool silent) {
  if (s->closed) return;
  s->closed = true;
  if (s->k == Sock::Listen) {
    listeners.erase({s->host, s->port});
    for (auto &c : s->acceptq) { c->closed[1] = true; if (!silent) send_rst(c, 0); }
    s->acceptq.clear();
  } else if (s->c) {
    auto c = s->c;
    c->closed[s->side] = true;
    if (silent) return;
    Dir &rx = s->rx(), &tx = s->tx();
    if (rx.buf.size() > rx.off && !c->rst[1 - s->side]) send_rst(c, 1 - s->side);
    else if (!tx.fin_sent) { tx.fin_sent = true; push_seg(c, s->side, "", true); }
  }
  wake(s.get());
}
void close_all_fds(Proc *p, bool) {
  bool silent = p->host && !p->host->up;
  for (auto &e : p->fds)
    if (e.second.sock) close_sock(e.second.sock, silent);
  p->fds.clear();
}
void host_net_down(Host *h) { h->up = false; }

static bool readable(Sock *s) {
  if (s->k == Sock::Listen) return !s->acceptq.empty() || s->shut_rd;
  if (s->k == Sock::Fresh) return true;
  if (s->connecting) return false;
  if (s->so_error) return true;
  auto &c = *s->c;
  return c.rst[s->side] || s->rx().buf.size() > s->rx().off || s->rx().fin_got || s->shut_rd;
}
static size_t tx_room(Sock *s) {
  Dir &d = s->tx();
  size_t used = d.inflight + (d.buf.size() - d.off);
  size_t win = s->c->win && s->side == 1 ? s->c->win : S->k.window;
  return used >= win ? 0 : win - used;
}
static bool writable(Sock *s) {
  if (s->k != Sock::Stream) return s->k == Sock::Fresh;
  if (s->connecting) return false;
  if (s->so_error) return true;
  return s->c->rst[s->side] || s->shut_wr || (s->c->win && s->side == 1 ? tx_room(s) * 3 >= (size_t)s->c->win : tx_room(s) > 0);
}
static int err(int e) { errno = e; return -1; }
static ssize_t sigpipe(Proc *p) {
  if (!p->sigpipe_ign && p->node) { fired("sigpipe_death"); kill_proc(p, 128 + SIGPIPE); }
  errno = EPIPE;
  return -1;
}
static bool eintr() {
  Proc *p = cproc();
  if (!p || !p->node) return false; // the harness's own clients and servers do not retry
  if (S->k.eintr && S->rn.chance(S->k.eintr / 1000.0)) return true;
  return false;
}

static ssize_t do_recv(std::shared_ptr<Sock> s, void *b, size_t n, int flags) {
  if (s->k != Sock::Stream) return err(ENOTCONN);
  opcost();
  bool nb = s->nonblock || (flags & MSG_DONTWAIT);
  Time dl = s->rcvto ? S->now + s->rcvto : -1;
  bool intr = !nb && eintr();
  for (;;) {
    InSim g;
    if (s->closed) return err(EBADF);
    if (s->connecting) { if (nb) return err(EAGAIN); }
    else {
      Dir &d = s->rx();
      size_t av = d.buf.size() - d.off;
      if (av) {
        size_t k = std::min(av, n);
        if (!(flags & MSG_PEEK) && k > 1 && S->k.shortio && S->rn.chance(S->k.shortio / 1000.0)) {
          fired("short_read");
          k = 1 + S->rn.below(k - 1);
        }
        memcpy(b, d.buf.data() + d.off, k);
        if (!(flags & MSG_PEEK)) {
          d.off += k; d.got += k;
          if (d.off == d.buf.size()) { d.buf.clear(); d.off = 0; }
          wake_ep(s->c.get(), 1 - s->side);
        }
        mix(0xa0000 + k + s->c->id * 7);
        return (ssize_t)k;
      }
      if (s->c->rst[s->side]) {
        mix(0xec);
        int e = s->c->rsterr[s->side];
        s->c->rsterr[s->side] = 0;
        return e ? err(e) : 0;
      }
      if (d.fin_got || s->shut_rd) { mix(0xf1); return 0; }
      if (nb) return err(EAGAIN);
    }
    if (dl >= 0 && S->now >= dl) return err(EAGAIN);
    if (intr) { fired("eintr"); return err(EINTR); } // only a call that waits is interrupted
    cur->insim--;
    block1(s.get(), dl);
    cur->insim++;
  }
}
static ssize_t do_send(std::shared_ptr<Sock> s, const void *b, size_t n, int flags) {
  if (s->k != Sock::Stream) return err(ENOTCONN);
  opcost();
  bool nb = s->nonblock || (flags & MSG_DONTWAIT);
  Time dl = s->sndto ? S->now + s->sndto : -1;
  bool intr = !nb && eintr();
  size_t done = 0;
  for (;;) {
    InSim g;
    if (s->closed) return err(EBADF);
    if (!s->connecting) {
      if (s->c->rst[s->side]) {
        if (done) return (ssize_t)done;
        mix(0xe9);
        int e = s->c->rsterr[s->side];
        s->c->rsterr[s->side] = 0;
        if (e && e != EPIPE) return err(e);
        cur->insim--;
        ssize_t r = (flags & MSG_NOSIGNAL) ? err(EPIPE) : sigpipe(cproc());
        cur->insim++;
        return r;
      }
      if (s->shut_wr) {
        cur->insim--;
        ssize_t r = (flags & MSG_NOSIGNAL) ? err(EPIPE) : sigpipe(cproc());
        cur->insim++;
        return r;
      }
      size_t room = tx_room(s.get());
      if (room) {
        size_t k = std::min(room, n - done);
        if (k > 1 && S->k.shortio && S->rn.chance(S->k.shortio / 1000.0)) {
          fired("short_write");
          k = 1 + S->rn.below(k - 1);
          stream_send(s->c, s->side, std::string((const char *)b + done, k));
          mix(0xb0000 + k);
          return (ssize_t)(done + k);
        }
        if (!s->tx().fin_sent) stream_send(s->c, s->side, std::string((const char *)b + done, k));
        mix(0xb0000 + k + s->c->id * 7);
        done += k;
        if (done == n || nb) return (ssize_t)done;
        continue;
      }
    }
    if (nb) return err(EAGAIN);
    if (dl >= 0 && S->now >= dl) return done ? (ssize_t)done : err(EAGAIN);
    if (intr) { fired("eintr"); return done ? (ssize_t)done : err(EINTR); }
    cur->insim--;
    block1(s.get(), dl);
    cur->insim++;
  }
}

static void syn(std::shared_ptr<Sock> s, Host *dst, int dport, int attempt);
static void connect_fail(std::shared_ptr<Sock> s, int e) {
  if (!s->connecting) return;
  s->connecting = false;
  s->so_error = e;
  wake(s.get());
}
static void syn(std::shared_ptr<Sock> s, Host *dst, int dport, int attempt) {
  if (s->closed || !s->connecting) return;
  if (attempt >= 7) { connect_fail(s, ETIMEDOUT); return; }
  auto retry = [=]() { at(S->now + (SEC << attempt), [=]() { syn(s, dst, dport, attempt + 1); }); };
  if (!dst || !dst->up || cut(s->host, dst)) { retry(); return; }
  auto c = s->c;
  at(S->now + lat(), [=]() {
    if (s->closed || !s->connecting) return;
    if (!dst->up || cut(s->host, dst)) { retry(); return; }
    auto i = listeners.find({dst, dport});
    if (i == listeners.end()) {
      at(S->now + lat(), [=]() { connect_fail(s, ECONNREFUSED); });
      return;
    }
    auto l = i->second;
    if ((int)l->acceptq.size() > l->backlog) { fired("backlog_overflow"); retry(); return; }
    if (c->established) return;
    c->established = true;
    c->sh = dst; c->sp = l->proc; c->sport = dport;
    l->acceptq.push_back(c);
    wake(l.get());
    at(S->now + lat(), [=]() {
      if (!s->connecting) return;
      s->connecting = false;
      wake(s.get());
    });
  });
}

static int do_connect(std::shared_ptr<Sock> s, const std::string &ip, int port) {
  Proc *p = cproc();
  opcost();
  {
    InSim g;
    auto c = std::make_shared<Conn>();
    c->id = (int)conns.size();
    c->ch = p->host; c->cp = p; c->ctid = cur->id;
    c->cport = next_port++;
    c->dst = ip;
    c->t_conn = S->now;
    s->host = p->host;
    s->port = c->cport;
    s->c = c; s->side = 0; s->k = Sock::Stream;
    s->connecting = true; s->so_error = 0;
    c->ep[0] = s;
    conns.push_back(c);
    Host *dst = host_by_ip(ip);
    mix(0xc0 + c->id);
    int early = 0;
    for (auto &f : cfaults) {
      if (f.used) continue;
      if (!f.from.empty() && (!p->host || p->host->name != f.from) && p->role != f.from) continue;
      if (!dst || dst->name != f.to) continue;
      if (f.nth >= 0 && f.seen++ != f.nth) continue;
      bool every = f.nth < 0;
      if (f.act == "refuse") { f.used = !every; early = ECONNREFUSED; fired("conn_refuse"); }
      else if (f.act == "timeout") { f.used = !every; early = ETIMEDOUT; fired("conn_timeout"); }
      else if (f.act == "route") { f.used = !every; dst = host(f.arg); fired("conn_reroute"); }
      else { f.used = !every; c->d[f.dir].faults.push_back(std::make_shared<ConnFault>(f)); c->d[f.dir].faults.back()->used = false; }
    }
    c->sh = dst;
    tr("connect #%d %s -> %s:%d", c->id, p->host ? p->host->name.c_str() : "-", ip.c_str(), port);
    if (early == ECONNREFUSED) at(S->now + 2 * lat(), [s]() { connect_fail(s, ECONNREFUSED); });
    else if (early) at(S->now + 20 * SEC, [s]() { connect_fail(s, ETIMEDOUT); });
    else syn(s, dst, port, 0);
  }
  if (s->nonblock) return err(EINPROGRESS);
  while (s->connecting) block1(s.get(), -1);
  if (s->so_error) { int e = s->so_error; s->so_error = 0; return err(e); }
  return 0;
}
} // namespace sim
using namespace sim;
namespace sim {
bool file_fd(int fd);
ssize_t file_read(int fd, void *b, size_t n);
ssize_t file_write(int fd, const void *b, size_t n);
int file_close(int fd);
int alloc_fd(Proc *p);
} // namespace sim

#define SIMULATED (cur && !cur->insim)
#define EXPORT extern "C" __attribute__((visibility("default")))
#define RN(ret, name, ...) static auto real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

EXPORT int socket(int dom, int type, int proto) __THROW {
  RN(int, socket, int, int, int);
  if (!SIMULATED) return real(dom, type, proto);
  opcost();
  InSim g;
  Proc *p = cproc();
  int fd = alloc_fd(p);
  if (fd < 0) return err(EMFILE);
  auto s = std::make_shared<Sock>();
  s->host = p->host; s->proc = p;
  s->nonblock = type & SOCK_NONBLOCK;
  Fd f; f.sock = s;
  p->fds[fd] = f;
  return fd;
}
EXPORT int bind(int fd, const struct sockaddr *a, socklen_t) __THROW {
  RN(int, bind, int, const struct sockaddr *, socklen_t);
  if (!SIMULATED) return real(fd, a, sizeof(sockaddr_in));
  auto s = getsock(fd);
  if (!s) return err(EBADF);
  opcost();
  InSim g;
  auto *in = (const sockaddr_in *)a;
  char ip[64];
  inet_ntop(AF_INET, &in->sin_addr, ip, sizeof ip);
  Host *h = s->proc->host;
  if (h && in->sin_addr.s_addr != INADDR_ANY && h->ip != ip) return err(EADDRNOTAVAIL);
  int port = ntohs(in->sin_port);
  if (port && listeners.count({h, port})) { fired("addr_in_use"); return err(EADDRINUSE); }
  s->port = port ? port : next_port++;
  return 0;
}
EXPORT int listen(int fd, int backlog) __THROW {
  RN(int, listen, int, int);
  if (!SIMULATED) return real(fd, backlog);
  auto s = getsock(fd);
  if (!s) return err(EBADF);
  opcost();
  InSim g;
  if (listeners.count({s->proc->host, s->port})) return err(EADDRINUSE);
  s->k = Sock::Listen; s->backlog = backlog;
  listeners[{s->proc->host, s->port}] = s;
  mix(0x115);
  tr("listen %s:%d", s->proc->host ? s->proc->host->name.c_str() : "-", s->port);
  return 0;
}
static int do_accept(int fd, struct sockaddr *a, socklen_t *al, int flags) {
  auto s = getsock(fd);
  if (!s) return err(EBADF);
  if (s->k != Sock::Listen) return err(EINVAL);
  opcost();
  if (eintr()) { fired("eintr"); return err(EINTR); }
  while (s->acceptq.empty()) {
    if (s->shut_rd || s->closed) return err(EINVAL);
    if (s->nonblock) return err(EAGAIN);
    block1(s.get(), -1);
  }
  InSim g;
  Proc *p = cproc();
  int nfd = alloc_fd(p);
  if (nfd < 0) return err(EMFILE);
  auto c = s->acceptq.front();
  s->acceptq.pop_front();
  auto n = std::make_shared<Sock>();
  n->k = Sock::Stream; n->c = c; n->side = 1; n->proc = p; n->host = p->host; n->port = s->port;
  n->nonblock = flags & SOCK_NONBLOCK;
  c->ep[1] = n; c->sp = p; c->t_acc = S->now;
  Fd f; f.sock = n;
  p->fds[nfd] = f;
  if (a && al) {
    sockaddr_in in{};
    in.sin_family = AF_INET; in.sin_port = htons(c->cport);
    inet_pton(AF_INET, c->ch ? c->ch->ip.c_str() : "127.0.0.1", &in.sin_addr);
    memcpy(a, &in, std::min<size_t>(*al, sizeof in));
    *al = sizeof in;
  }
  mix(0xacc + c->id);
  tr("accept conn#%d fd%d", c->id, nfd);
  return nfd;
}
EXPORT int accept(int fd, struct sockaddr *a, socklen_t *al) {
  RN(int, accept, int, struct sockaddr *, socklen_t *);
  if (!SIMULATED) return real(fd, a, al);
  return do_accept(fd, a, al, 0);
}
EXPORT int accept4(int fd, struct sockaddr *a, socklen_t *al, int fl) {
  RN(int, accept4, int, struct sockaddr *, socklen_t *, int);
  if (!SIMULATED) return real(fd, a, al, fl);
  return do_accept(fd, a, al, fl);
}
EXPORT int connect(int fd, const struct sockaddr *a, socklen_t l) {
  RN(int, connect, int, const struct sockaddr *, socklen_t);
  if (!SIMULATED) return real(fd, a, l);
  auto s = getsock(fd);
  if (!s) return err(EBADF);
  if (s->k == Sock::Stream) {
    if (s->connecting) return err(EALREADY);
    return err(EISCONN);
  }
  auto *in = (const sockaddr_in *)a;
  char ip[64];
  inet_ntop(AF_INET, &in->sin_addr, ip, sizeof ip);
  return do_connect(s, ip, ntohs(in->sin_port));
}
EXPORT int shutdown(int fd, int how) __THROW {
  RN(int, shutdown, int, int);
  if (!SIMULATED) return real(fd, how);
  auto s = getsock(fd);
  if (!s) return err(EBADF);
  opcost();
  InSim g;
  if (s->k == Sock::Listen) { s->shut_rd = true; listeners.erase({s->host, s->port}); wake(s.get()); return 0; }
  if (s->k != Sock::Stream || s->connecting) return err(ENOTCONN);
  if (s->c->rst[s->side]) return err(ENOTCONN);
  if (how == SHUT_RD || how == SHUT_RDWR) s->shut_rd = true;
  if ((how == SHUT_WR || how == SHUT_RDWR) && !s->shut_wr) {
    s->shut_wr = true;
    if (!s->tx().fin_sent) { s->tx().fin_sent = true; push_seg(s->c, s->side, "", true); }
  }
  wake(s.get());
  return 0;
}
EXPORT int close(int fd) {
  RN(int, close, int);
  if (!SIMULATED) return real(fd);
  Proc *p = cproc();
  auto i = p->fds.find(fd);
  if (i == p->fds.end()) {
    if (p->node) { fired("close_bad_fd"); tr("close of bad fd %d", fd); }
    return err(EBADF);
  }
  opcost();
  InSim g;
  i = p->fds.find(fd);
  if (i == p->fds.end()) return err(EBADF);
  Fd f = i->second;
  if (f.sock) {
    p->fds.erase(i);
    close_sock(f.sock, false);
    mix(0xc105e);
    return 0;
  }
  return file_close(fd);
}
EXPORT ssize_t recv(int fd, void *b, size_t n, int fl) {
  RN(ssize_t, recv, int, void *, size_t, int);
  if (!SIMULATED) return real(fd, b, n, fl);
  auto s = getsock(fd);
  if (!s) return err(EBADF);
  return do_recv(s, b, n, fl);
}
EXPORT ssize_t send(int fd, const void *b, size_t n, int fl) {
  RN(ssize_t, send, int, const void *, size_t, int);
  if (!SIMULATED) return real(fd, b, n, fl);
  auto s = getsock(fd);
  if (!s) return err(EBADF);
  return do_send(s, b, n, fl);
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
  RN(ssize_t, read, int, void *, size_t);
  if (!SIMULATED) return real(fd, b, n);
  auto s = getsock(fd);
  if (s) return do_recv(s, b, n, 0);
  return file_read(fd, b, n);
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  RN(ssize_t, write, int, const void *, size_t);
  if (!SIMULATED) return real(fd, b, n);
  auto s = getsock(fd);
  if (s) return do_send(s, b, n, 0);
  return file_write(fd, b, n);
}
EXPORT ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) {
  RN(ssize_t, recvfrom, int, void *, size_t, int, struct sockaddr *, socklen_t *);
  if (!SIMULATED) return real(fd, b, n, fl, a, l);
  return recv(fd, b, n, fl);
}
EXPORT ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) {
  RN(ssize_t, sendto, int, const void *, size_t, int, const struct sockaddr *, socklen_t);
  if (!SIMULATED) return real(fd, b, n, fl, a, l);
  return send(fd, b, n, fl);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int n) {
  RN(ssize_t, writev, int, const struct iovec *, int);
  if (!SIMULATED) return real(fd, v, n);
  std::string s;
  { InSim g; for (int i = 0; i < n; i++) s.append((const char *)v[i].iov_base, v[i].iov_len); }
  return write(fd, s.data(), s.size());
}
EXPORT int setsockopt(int fd, int lvl, int opt, const void *v, socklen_t l) __THROW {
  RN(int, setsockopt, int, int, int, const void *, socklen_t);
  if (!SIMULATED) return real(fd, lvl, opt, v, l);
  auto s = getsock(fd);
  if (!s) return err(EBADF);
  if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && l >= sizeof(timeval)) {
    auto *tv = (const timeval *)v;
    Time t = (Time)tv->tv_sec * SEC + tv->tv_usec * US;
    (opt == SO_RCVTIMEO ? s->rcvto : s->sndto) = t;
  }
  return 0;
}
EXPORT int getsockopt(int fd, int lvl, int opt, void *v, socklen_t *l) __THROW {
  RN(int, getsockopt, int, int, int, void *, socklen_t *);
  if (!SIMULATED) return real(fd, lvl, opt, v, l);
  auto s = getsock(fd);
  if (!s) return err(EBADF);
  if (lvl == SOL_SOCKET && opt == SO_ERROR) {
    *(int *)v = s->so_error; s->so_error = 0;
    if (!*(int *)v && s->c) { *(int *)v = s->c->rsterr[s->side]; s->c->rsterr[s->side] = 0; }
    return 0;
  }
  if (lvl == SOL_SOCKET && opt == SO_TYPE) { *(int *)v = SOCK_STREAM; return 0; }
  return err(ENOPROTOOPT);
}
static int fillname(Host *h, int port, struct sockaddr *a, socklen_t *l) {
  sockaddr_in in{};
  in.sin_family = AF_INET; in.sin_port = htons(port);
  inet_pton(AF_INET, h ? h->ip.c_str() : "127.0.0.1", &in.sin_addr);
  memcpy(a, &in, std::min<size_t>(*l, sizeof in));
  *l = sizeof in;
  return 0;
}
EXPORT int getsockname(int fd, struct sockaddr *a, socklen_t *l) __THROW {
  RN(int, getsockname, int, struct sockaddr *, socklen_t *);
  if (!SIMULATED) return real(fd, a, l);
  auto s = getsock(fd);
  if (!s) return err(EBADF);
  return fillname(s->host, s->port, a, l);
}
EXPORT int getpeername(int fd, struct sockaddr *a, socklen_t *l) __THROW {
  RN(int, getpeername, int, struct sockaddr *, socklen_t *);
  if (!SIMULATED) return real(fd, a, l);
  auto s = getsock(fd);
  if (!s) return err(EBADF);
  if (s->k != Sock::Stream || s->connecting) return err(ENOTCONN);
  return s->side == 0 ? fillname(s->c->sh, s->c->sport, a, l) : fillname(s->c->ch, s->c->cport, a, l);
}
static int do_fcntl(int fd, int cmd, long arg) {
  Proc *p = cproc();
  auto i = p->fds.find(fd);
  if (i == p->fds.end()) return err(EBADF);
  if (cmd == F_GETFL) return O_RDWR | (i->second.sock && i->second.sock->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) { if (i->second.sock) i->second.sock->nonblock = arg & O_NONBLOCK; return 0; }
  return 0;
}
EXPORT int fcntl(int fd, int cmd, ...) {
  RN(int, fcntl, int, int, ...);
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (!SIMULATED) return real(fd, cmd, arg);
  return do_fcntl(fd, cmd, arg);
}
EXPORT int fcntl64(int fd, int cmd, ...) {
  RN(int, fcntl64, int, int, ...);
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (!SIMULATED) return real(fd, cmd, arg);
  return do_fcntl(fd, cmd, arg);
}
EXPORT int ioctl(int fd, unsigned long req, ...) __THROW {
  RN(int, ioctl, int, unsigned long, ...);
  va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
  if (!SIMULATED) return real(fd, req, arg);
  auto s = getsock(fd);
  if (!s) return err(ENOTTY);
  if (req == FIONBIO) { s->nonblock = *(int *)arg; return 0; }
  if (req == FIONREAD && s->k == Sock::Stream) { *(int *)arg = (int)(s->rx().buf.size() - s->rx().off); return 0; }
  return err(EINVAL);
}
struct PollEnt { std::shared_ptr<Sock> s; bool r, w; bool bad, always; };
// waits until one entry is ready; fills rr/ww; returns the number ready
static int wait_ready(std::vector<PollEnt> &v, std::vector<char> &rr, std::vector<char> &ww, Time timeout) {
  Time dl = timeout < 0 ? -1 : S->now + timeout;
  rr.assign(v.size(), 0); ww.assign(v.size(), 0);
  for (;;) {
    int n = 0;
    std::vector<const void *> keys;
    {
      InSim g;
      for (size_t i = 0; i < v.size(); i++) {
        bool r = false, w = false;
        if (v[i].always) { r = v[i].r; w = v[i].w; }
        else { r = v[i].r && readable(v[i].s.get()); w = v[i].w && writable(v[i].s.get()); }
        rr[i] = r; ww[i] = w;
        if (r || w) n++;
        if (v[i].s) keys.push_back(v[i].s.get());
      }
    }
    if (n) { mix(0x5e1 + n); return n; }
    if (dl >= 0 && S->now >= dl) return 0;
    block(keys.data(), (int)keys.size(), dl);
  }
}
EXPORT int select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
  RN(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *);
  if (!SIMULATED) return real(nfds, r, w, e, tv);
  opcost();
  if (eintr()) { fired("eintr"); return err(EINTR); }
  std::vector<PollEnt> v; std::vector<int> fds;
  for (int i = 0; i < nfds; i++) {
    bool a = r && FD_ISSET(i, r), b = w && FD_ISSET(i, w), c = e && FD_ISSET(i, e);
    if (!a && !b && !c) continue;
    auto it = cproc()->fds.find(i);
    if (it == cproc()->fds.end()) return err(EBADF);
    InSim g;
    v.push_back({it->second.sock, a, b, false, !it->second.sock});
    fds.push_back(i);
  }
  std::vector<char> rr, ww;
  int n = wait_ready(v, rr, ww, tv ? (Time)tv->tv_sec * SEC + tv->tv_usec * US : -1);
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (e) FD_ZERO(e);
  int cnt = 0;
  if (n > 0)
    for (size_t i = 0; i < v.size(); i++) {
      if (rr[i] && r) { FD_SET(fds[i], r); cnt++; }
      if (ww[i] && w) { FD_SET(fds[i], w); cnt++; }
    }
  return cnt;
}
EXPORT int poll(struct pollfd *p, nfds_t n, int to) {
  RN(int, poll, struct pollfd *, nfds_t, int);
  if (!SIMULATED) return real(p, n, to);
  opcost();
  if (eintr()) { fired("eintr"); return err(EINTR); }
  std::vector<PollEnt> v;
  int bad = 0;
  for (nfds_t i = 0; i < n; i++) {
    p[i].revents = 0;
    auto it = p[i].fd < 0 ? cproc()->fds.end() : cproc()->fds.find(p[i].fd);
    InSim g;
    if (it == cproc()->fds.end()) { if (p[i].fd >= 0) { p[i].revents = POLLNVAL; bad++; } v.push_back({nullptr, false, false, true, true}); continue; }
    v.push_back({it->second.sock, (p[i].events & POLLIN) != 0, (p[i].events & POLLOUT) != 0, false, !it->second.sock});
  }
  if (bad) return bad;
  std::vector<char> rr, ww;
  int k = wait_ready(v, rr, ww, to < 0 ? -1 : (Time)to * MS);
  for (nfds_t i = 0; i < n && k > 0; i++) {
    if (rr[i]) p[i].revents |= POLLIN;
    if (ww[i]) p[i].revents |= POLLOUT;
    auto &s = v[i].s;
    if (s && s->k == Sock::Stream && !s->connecting && (s->so_error || (s->c && s->c->rst[s->side])) && (rr[i] || ww[i])) p[i].revents |= POLLERR;
  }
  return k;
}
EXPORT int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
  RN(int, getaddrinfo, const char *, const char *, const struct addrinfo *, struct addrinfo **);
  if (!SIMULATED) return real(node, service, hints, res);
  opcost();
  InSim g;
  std::string name = node ? node : "", ip;
  struct in_addr tmp;
  if (name.empty()) ip = (hints && (hints->ai_flags & AI_PASSIVE)) ? "0.0.0.0" : "127.0.0.1";
  else if (inet_pton(AF_INET, name.c_str(), &tmp) == 1) ip = name;
  else if (names.count(name)) ip = names[name];
  else return EAI_NONAME;
  if (hints && hints->ai_family == AF_INET6) return EAI_NONAME;
  char *blk = (char *)calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in));
  auto *ai = (addrinfo *)blk;
  auto *in = (sockaddr_in *)(blk + sizeof(addrinfo));
  ai->ai_family = AF_INET;
  ai->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
  ai->ai_protocol = IPPROTO_TCP;
  ai->ai_addrlen = sizeof(sockaddr_in);
  ai->ai_addr = (sockaddr *)in;
  in->sin_family = AF_INET;
  in->sin_port = htons(service ? atoi(service) : 0);
  inet_pton(AF_INET, ip.c_str(), &in->sin_addr);
  *res = ai;
  cproc()->live_n++;
  return 0;
}
EXPORT void freeaddrinfo(struct addrinfo *a) __THROW {
  RN(void, freeaddrinfo, struct addrinfo *);
  if (!SIMULATED) return real(a);
  cproc()->live_n--;
  free(a);
}
EXPORT int getifaddrs(struct ifaddrs **out) __THROW {
  RN(int, getifaddrs, struct ifaddrs **);
  if (!SIMULATED) return real(out);
  return err(ENOSYS);
}
#undef res_init
EXPORT int __res_init() __THROW {
  RN(int, __res_init);
  if (!SIMULATED) return real();
  return 0;
}
