#include "simos.h"
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <netinet/in.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
using namespace sim;
namespace sim { extern "C" void *(*sim_mmap_fd)(size_t n, int fd, off_t off); }
namespace os {
Cfg cfg;
uint64_t n_fsync, n_write, n_commit;
int nlisten;
// ------------------------------------------------------------------ files
// Durability model (a journalling file system with ordered data): appended bytes reach the disk in order, so after a power
// failure a file holds its synced part plus a prefix (cut at any byte) of what was written since; directory changes and
// truncations are journalled in order, a prefix of them survives, and fsync of any file commits all earlier ones.
struct Mod { bool trunc; size_t off; std::string data; };
struct Ino { std::string data, dur; std::vector<Mod> pend; uint64_t lastw = 0; };
static std::vector<Ino> inos;
struct Dent { int kind; std::string a, b; int ino; };   // 0 create a->ino, 1 rename a->b, 2 unlink a
static std::map<std::string, int> dir, ddir;             // seen by the process / on the disk
static std::vector<Dent> journal;
static void dapply(std::map<std::string, int> &d, const Dent &e) { if (e.kind == 0) d[e.a] = e.ino; else if (e.kind == 1) { auto i = d.find(e.a); if (i != d.end()) { int n = i->second; d.erase(i); d[e.b] = n; } } else d.erase(e.a); }
static void fileop() { if (cfg.crash_op && !--cfg.crash_op) sim_probe("crash aimed at a file operation"), sim_crash_in(cfg.crash_delay); }
static void meta(const Dent &e) { fileop(); dapply(dir, e); journal.push_back(e); }
static void commit() { for (auto &e : journal) dapply(ddir, e); journal.clear(); n_commit++; }
static void put(std::string &o, uint64_t v) { o.append((char *)&v, 8); }
static uint64_t get(const char *&p) { uint64_t v; memcpy(&v, p, 8); p += 8; return v; }
static void mod(std::string &d, const Mod &m, size_t upto) { if (m.trunc) d.resize(m.off); else { size_t n = std::min(upto, m.data.size()); if (d.size() < m.off + n) d.resize(m.off + n); memcpy(&d[m.off], m.data.data(), n); } }
std::string fs_after_crash(bool power) {
  std::map<std::string, std::string> f;
  if (!power) for (auto &e : dir) f[e.first] = inos[e.second].data;
  else {
    size_t k = sim_rand() % (journal.size() + 1);
    for (size_t i = 0; i < k; i++) dapply(ddir, journal[i]);
    for (auto &e : ddir) {
      Ino &n = inos[e.second]; std::string d = n.dur;
      if (!n.pend.empty()) {
        size_t m = sim_rand() % (n.pend.size() + 1);
        for (size_t i = 0; i < m; i++) mod(d, n.pend[i], ~(size_t)0);
        if (m < n.pend.size() && !n.pend[m].trunc && n.pend[m].data.size() && sim_rand() % 3) { size_t z = n.pend[m].data.size(); mod(d, n.pend[m], sim_rand() % (sim_rand() % 2 ? z : std::min<size_t>(z, 40))); sim_probe("torn write after a power failure"); }
        if (d != n.data) sim_probe("unsynced data lost in a power failure");
      }
      f[e.first] = d;
    }
    if (k < journal.size()) sim_probe("directory change lost in a power failure");
  }
  std::string o; put(o, f.size());
  for (auto &e : f) { put(o, e.first.size()); o += e.first; put(o, e.second.size()); o += e.second; }
  return o;
}
void fs_load(const char *p, size_t) {
  for (uint64_t n = get(p); n; n--) { uint64_t k = get(p); std::string name(p, k); p += k; uint64_t m = get(p); inos.push_back(Ino{std::string(p, m), std::string(p, m), {}, 0}); p += m; dir[name] = ddir[name] = (int)inos.size() - 1; }
}
void fs_dump(const char *what) { for (auto &e : dir) sim_note("%s: file %s, %zu bytes (%zu synced)", what, e.first.c_str(), inos[e.second].data.size(), inos[e.second].dur.size()); }
// ------------------------------------------------------------------ descriptors
enum Ty { NONE, FILE_, LISTEN, CONN, PIPER, PIPEW, EPOLL, UDP };
struct Stream { std::string q; bool closed = false; };
struct Conn { Stream up, down; bool cclosed = false, sclosed = false, greeted = false; };   // up: to the server
struct Gram { int from; std::string d; };
struct Fd { int ty = NONE; int ino = -1; size_t off = 0; bool app = false; int conn = -1, pipe = -1; int port = 0; std::vector<std::pair<int, epoll_data_t>> ep; };
static std::map<int, Fd> fds;
static std::vector<Conn> conns; static std::deque<int> backlog; static std::vector<Stream> pipes;
static std::map<int, std::deque<Gram>> inbox;    // server ports
static std::map<int, std::deque<std::string>> cinbox;   // datagram clients
static int key;                                    // everybody who waits for I/O waits here
static int newfd(const Fd &f) { int i = 400; while (fds.count(i)) i++; fds[i] = f; return i; }
static Fd *fd_(int i) { auto x = fds.find(i); return x == fds.end() ? nullptr : &x->second; }
static bool readable(const Fd &f) {
  switch (f.ty) { case CONN: return conns[f.conn].up.q.size() || conns[f.conn].cclosed; case PIPER: return pipes[f.pipe].q.size(); case LISTEN: return !backlog.empty(); case UDP: return inbox[f.port].size(); default: return true; }
}
// ------------------------------------------------------------------ client side
static void point() { int m = sim_off(); sim_on(2); sim_point(); sim_on(m); }
void sleep(uint64_t ns) { int m = sim_off(); sim_on(2); sim_sleep_ns(ns); sim_on(m); }
int net_connect() {
  Off o;
  while (!nlisten) sim_block(&key);
  conns.push_back(Conn()); int c = (int)conns.size() - 1; backlog.push_back(c); sim_wake(&key);
  return c;
}
void net_send(int c, const std::string &b) { point(); Off o; conns[c].up.q += b; sim_wake(&key); }
bool net_readable(int c) { return conns[c].down.q.size() || conns[c].sclosed; }
bool net_recv(int c, std::string &b) {
  point(); Off o;
  while (!net_readable(c)) sim_block(&key);
  if (conns[c].down.q.empty()) return false;
  b += conns[c].down.q; conns[c].down.q.clear(); return true;
}
void net_close(int c) { point(); Off o; conns[c].cclosed = true; sim_wake(&key); }
void udp_send(int port, int me, const std::string &b) {
  point(); Off o;
  if (cfg.udp_loss && (int)(sim_rand() % 100) < cfg.udp_loss) { sim_probe("datagram lost"); return; }
  int n = cfg.udp_dup && (int)(sim_rand() % 100) < cfg.udp_dup ? 2 : 1; if (n == 2) sim_probe("datagram duplicated");
  for (; n; n--) { auto &q = inbox[port]; if (q.size() && sim_rand() % 4 == 0) { q.push_front(Gram{me, b}); sim_probe("datagrams reordered"); } else q.push_back(Gram{me, b}); }
  sim_wake(&key);
}
bool udp_recv(int me, std::string &b, uint64_t deadline) {
  point(); Off o;
  while (cinbox[me].empty()) if (!sim_block_until(&key, deadline) && cinbox[me].empty()) return false;
  b = cinbox[me].front(); cinbox[me].pop_front(); return true;
}
static void *mmap_fd(size_t n, int fd, off_t off);
}  // namespace os
using namespace os;
#define SIM_ON (sim_concurrent())
extern "C" void *__wrap_mmap(void *, size_t, int, int, int, off_t);
static void *os::mmap_fd(size_t n, int fd, off_t off) {
  Fd *f = fd_(fd); if (!f || f->ty != FILE_) { errno = EBADF; return MAP_FAILED; }
  if (!n) { errno = EINVAL; return MAP_FAILED; }
  void *p = __wrap_mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) return p;
  Off o; const std::string &d = inos[f->ino].data;
  if ((size_t)off < d.size()) memcpy(p, d.data() + off, std::min(n, d.size() - off));
  return p;
}
static struct Hook { Hook() { sim::sim_mmap_fd = os::mmap_fd; } } hook;
// a stalled disk or thread: a few times per process an operation on a log takes up to three seconds longer
static void stall() { bool y; { Off o; y = cfg.stalls > 0 && sim_rand() % 6 == 0; if (y) cfg.stalls--, sim_probe("stalled"); } if (y) sim_sleep_ns(50000000ull + sim_rand() % 3000000000ull); }
static void file_latency() { stall(); if (cfg.fsync_ms) sim_sleep_ns((sim_rand() % (cfg.fsync_ms * 10)) * 100000ull); }
extern "C" {
#define REAL(t, n, ...) t __real_##n(__VA_ARGS__)
REAL(int, open, const char *, int, ...);
int __wrap_open(const char *path, int fl, ...) {
  va_list ap; va_start(ap, fl); int md = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap);
  if (!SIM_ON) return __real_open(path, fl, md);
  sim_point(); Off o;
  auto i = dir.find(path);
  if (i == dir.end()) {
    if (!(fl & O_CREAT)) { errno = ENOENT; return -1; }
    inos.push_back(Ino()); meta(Dent{0, path, "", (int)inos.size() - 1});
    i = dir.find(path);
  } else if (fl & O_TRUNC) { Ino &n = inos[i->second]; n.data.clear(); n.pend.push_back(Mod{true, 0, ""}); }
  Fd f; f.ty = FILE_; f.ino = i->second; f.app = fl & O_APPEND; return newfd(f);
}
REAL(int, creat, const char *, mode_t);
int __wrap_creat(const char *p, mode_t m) { if (!SIM_ON) return __real_creat(p, m); return __wrap_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
REAL(int, close, int);
int __wrap_close(int fd) {
  if (!SIM_ON) return __real_close(fd);
  sim_point(); Off o; Fd *f = fd_(fd); if (!f) { errno = EBADF; sim_fail("bad-fd", "close of descriptor %d, which is not open", fd); }
  if (f->ty == CONN) { conns[f->conn].sclosed = true; sim_wake(&key); for (auto &e : fds) if (e.second.ty == EPOLL) { auto &v = e.second.ep; for (size_t k = 0; k < v.size();) if (v[k].first == fd) v.erase(v.begin() + k); else k++; } }
  fds.erase(fd); return 0;
}
REAL(ssize_t, read, int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (!SIM_ON || fd < 400) return __real_read(fd, b, n);
  sim_point();
  if (!sim_mem_ok(b, n)) sim_fail("heap-overflow", "read of %zu bytes into a smaller or freed buffer", n);
  Off o; Fd *f = fd_(fd); if (!f) sim_fail("bad-fd", "read from descriptor %d, which is not open", fd);
  if (f->ty == FILE_) { std::string &d = inos[f->ino].data; size_t k = f->off < d.size() ? std::min(n, d.size() - f->off) : 0; if (k > 1 && cfg.short_read && (int)(sim_rand() % 100) < cfg.short_read) k = 1 + sim_rand() % k; memcpy(b, d.data() + f->off, k); f->off += k; return k; }
  while (!readable(*f)) sim_block(&key);
  if (f->ty == CONN) {
    Stream &s = conns[f->conn].up; size_t k = std::min(n, s.q.size());
    if (!k) return 0;
    if (!conns[f->conn].greeted) conns[f->conn].greeted = true;   // see net_connect
    else if (k > 1 && cfg.short_read && (int)(sim_rand() % 100) < cfg.short_read) { k = 1 + sim_rand() % k; sim_probe("a request arrives in pieces"); }
    memcpy(b, s.q.data(), k); s.q.erase(0, k); return k;
  }
  if (f->ty == PIPER) { Stream &s = pipes[f->pipe]; size_t k = std::min(n, s.q.size()); memcpy(b, s.q.data(), k); s.q.erase(0, k); return k; }
  errno = EINVAL; return -1;
}
REAL(ssize_t, write, int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (!SIM_ON || fd < 400) return __real_write(fd, b, n);
  sim_point();
  if (!sim_mem_ok(b, n)) sim_fail("heap-overflow", "write of %zu bytes from a smaller or freed buffer", n);
  Fd *f = fd_(fd); if (!f) sim_fail("bad-fd", "write to descriptor %d, which is not open", fd);
  if (f->ty == FILE_) {
    stall();
    int64_t bad = cfg.io_faults ? sim_io_choice(1, 2) : 0;
    Off o; n_write++;
    if (bad == 1) { sim_abort_is_crash(1); sim_probe("disk full"); errno = ENOSPC; return -1; }
    size_t k = n; if (bad == 2 && n > 1) { k = 1 + sim_rand() % (n - 1); sim_abort_is_crash(1); sim_probe("short write to a file"); }
    fileop(); Ino &i = inos[f->ino]; uint64_t now = sim_time_ns();
    if (i.lastw && now - i.lastw > 450000000 && cfg.crash_quiet && !--cfg.crash_quiet) sim_probe("crash aimed at a write to a silent file"), sim_crash_in(cfg.crash_delay);
    i.lastw = now; if (f->app) f->off = i.data.size();
    Mod m{false, f->off, std::string((const char *)b, k)}; mod(i.data, m, ~(size_t)0); i.pend.push_back(m); f->off += k;
    return k;
  }
  Off o;
  if (f->ty == CONN) {
    Conn &c = conns[f->conn]; if (c.cclosed) { errno = EPIPE; sim_probe("write to a closed connection"); return -1; }
    size_t k = n; if (n > 1 && cfg.short_read && (int)(sim_rand() % 100) < cfg.short_read) { k = 1 + sim_rand() % n; sim_probe("a reply leaves in pieces"); }
    c.down.q.append((const char *)b, k); sim_wake(&key); return k;
  }
  if (f->ty == PIPEW) { pipes[f->pipe].q.append((const char *)b, n); sim_wake(&key); return n; }
  errno = EINVAL; return -1;
}
REAL(int, fsync, int);
int __wrap_fsync(int fd) {
  if (!SIM_ON) return __real_fsync(fd);
  sim_point(); Fd *f = fd_(fd); if (!f || f->ty != FILE_) { errno = EBADF; return -1; }
  int ino = f->ino; size_t upto; { Off o; upto = inos[ino].pend.size(); }
  file_latency();
  int64_t bad = cfg.io_faults ? sim_io_choice(2, 1) : 0;
  Off o; Ino &n = inos[ino]; n_fsync++;
  if (bad) { n.pend.erase(n.pend.begin(), n.pend.begin() + std::min(upto, n.pend.size())); sim_abort_is_crash(1); sim_probe("fsync failed, its data dropped"); errno = EIO; return -1; }
  for (size_t i = 0; i < upto && i < n.pend.size(); i++) mod(n.dur, n.pend[i], ~(size_t)0);
  n.pend.erase(n.pend.begin(), n.pend.begin() + std::min(upto, n.pend.size()));
  commit(); fileop(); return 0;
}
REAL(int, ftruncate, int, off_t);
int __wrap_ftruncate(int fd, off_t len) {
  if (!SIM_ON) return __real_ftruncate(fd, len);
  sim_point(); Off o; Fd *f = fd_(fd); if (!f) { errno = EBADF; return -1; }
  fileop(); inos[f->ino].data.resize(len); inos[f->ino].pend.push_back(Mod{true, (size_t)len, ""}); return 0;
}
REAL(off_t, lseek, int, off_t, int);
off_t __wrap_lseek(int fd, off_t off, int w) { if (!SIM_ON || fd < 400) return __real_lseek(fd, off, w); Off o; Fd *f = fd_(fd); if (!f) { errno = EBADF; return -1; } f->off = w == SEEK_SET ? off : w == SEEK_CUR ? f->off + off : inos[f->ino].data.size() + off; return f->off; }
REAL(int, fstat, int, struct stat *);
int __wrap_fstat(int fd, struct stat *s) { if (!SIM_ON || fd < 400) return __real_fstat(fd, s); sim_point(); Off o; Fd *f = fd_(fd); if (!f) { errno = EBADF; return -1; } memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = inos[f->ino].data.size(); s->st_blksize = 4096; return 0; }
REAL(int, stat, const char *, struct stat *);
int __wrap_stat(const char *p, struct stat *s) { if (!SIM_ON) return __real_stat(p, s); sim_point(); Off o; memset(s, 0, sizeof *s); auto i = dir.find(p); if (i == dir.end()) { if (!strchr(p, '.') && strlen(p) < 8) { s->st_mode = S_IFDIR | 0755; return 0; } errno = ENOENT; return -1; } s->st_mode = S_IFREG | 0644; s->st_size = inos[i->second].data.size(); return 0; }
REAL(int, mkdir, const char *, mode_t);
int __wrap_mkdir(const char *p, mode_t m) { if (!SIM_ON) return __real_mkdir(p, m); return 0; }
REAL(int, rename, const char *, const char *);
int __wrap_rename(const char *a, const char *b) { if (!SIM_ON) return __real_rename(a, b); sim_point(); Off o; if (!dir.count(a)) { errno = ENOENT; return -1; } meta(Dent{1, a, b, 0}); return 0; }
REAL(int, unlink, const char *);
int __wrap_unlink(const char *a) { if (!SIM_ON) return __real_unlink(a); sim_point(); Off o; if (!dir.count(a)) { errno = ENOENT; return -1; } meta(Dent{2, a, "", 0}); return 0; }
int __wrap_socket(int, int ty, int) { sim_point(); Off o; Fd f; f.ty = (ty & 0xf) == SOCK_STREAM ? LISTEN : UDP; return newfd(f); }
int __wrap_setsockopt(int, int, int, const void *, socklen_t) { return 0; }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t) { Off o; fd_(fd)->port = ntohs(((const sockaddr_in *)a)->sin_port); return 0; }
int __wrap_listen(int, int) { sim_point(); Off o; nlisten++; sim_wake(&key); return 0; }
int __wrap_accept(int fd, struct sockaddr *, socklen_t *) { sim_point(); Off o; while (backlog.empty()) sim_block(&key); Fd f; f.ty = CONN; f.conn = backlog.front(); backlog.pop_front(); (void)fd; return newfd(f); }
int __wrap_pipe(int *p) { Off o; pipes.push_back(Stream()); Fd f; f.pipe = (int)pipes.size() - 1; f.ty = PIPER; p[0] = newfd(f); f.ty = PIPEW; p[1] = newfd(f); return 0; }
int __wrap_epoll_create(int) { Off o; Fd f; f.ty = EPOLL; return newfd(f); }
int __wrap_epoll_ctl(int e, int op, int fd, struct epoll_event *ev) {
  sim_point(); Off o; Fd *x = fd_(e); if (!x || !fd_(fd)) { errno = EBADF; return -1; }
  if (op == EPOLL_CTL_ADD) x->ep.push_back({fd, epoll_data_t(ev->data)}); else for (size_t k = 0; k < x->ep.size(); k++) if (x->ep[k].first == fd) { x->ep.erase(x->ep.begin() + k); break; }
  return 0;
}
int __wrap_epoll_wait(int e, struct epoll_event *ev, int max, int) {
  sim_point(); Off o;
  for (;;) {
    Fd *x = fd_(e); int n = 0; size_t m = x->ep.size(), s = m ? sim_rand() % m : 0;
    for (size_t k = 0; k < m && n < max; k++) { auto &p = x->ep[(k + s) % m]; Fd *f = fd_(p.first); if (f && readable(*f)) { ev[n].events = EPOLLIN; ev[n].data = p.second; n++; } }
    if (n) return n;
    sim_block(&key);
  }
}
REAL(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) {
  if (!SIM_ON) return __real_select(n, r, w, x, t);
  if (!r) { stall(); sim_sleep_ns(t->tv_sec * 1000000000ull + t->tv_usec * 1000ull); return 0; }
  sim_point(); Off o; int k = 0;
  for (int i = 0; i < n; i++) if (FD_ISSET(i, r)) { Fd *f = fd_(i); if (f && readable(*f)) k++; else FD_CLR(i, r); }
  return k;
}
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int, struct sockaddr *a, socklen_t *) {
  sim_point(); Off o; Fd *f = fd_(fd);
  while (!readable(*f)) sim_block(&key);
  Gram g = inbox[f->port].front(); inbox[f->port].pop_front();
  size_t k = std::min(n, g.d.size()); memcpy(b, g.d.data(), k);
  ((sockaddr_in *)a)->sin_port = g.from; return k;
}
ssize_t __wrap_sendto(int, const void *b, size_t n, int, const struct sockaddr *a, socklen_t) {
  sim_point(); Off o; int to = ((const sockaddr_in *)a)->sin_port;
  if (cfg.udp_loss && (int)(sim_rand() % 100) < cfg.udp_loss) { sim_probe("datagram reply lost"); return n; }
  cinbox[to].push_back(std::string((const char *)b, n)); sim_wake(&key); return n;
}
typedef void (*sigh)(int);
static sigh alrm;
REAL(sigh, signal, int, sigh);
sigh __wrap_signal(int s, sigh h) { if (!SIM_ON) return __real_signal(s, h); if (s == SIGALRM) alrm = h; return SIG_DFL; }
static uint64_t itv;
static void ticker(void *) { for (;;) { sim_sleep_ns(itv); if (alrm) alrm(SIGALRM); } }
int __wrap_setitimer(int, const struct itimerval *v, struct itimerval *) { itv = v->it_interval.tv_sec * 1000000000ull + v->it_interval.tv_usec * 1000ull; if (itv) sim::spawn(ticker, nullptr); return 0; }
int __wrap_pthread_cancel(pthread_t) { return 0; }

// what the server prints goes nowhere
REAL(int, vfprintf, FILE *, const char *, va_list);
int __wrap_printf(const char *f, ...) { if (SIM_ON) { if (!strcmp(f, "stall\n")) sim_probe("log buffer full"); return 0; } va_list a; va_start(a, f); int r = __real_vfprintf(stdout, f, a); va_end(a); return r; }
int __wrap_fprintf(FILE *o, const char *f, ...) { if (SIM_ON) return 0; va_list a; va_start(a, f); int r = __real_vfprintf(o, f, a); va_end(a); return r; }
int __wrap_vfprintf(FILE *o, const char *f, va_list a) { if (SIM_ON) return 0; return __real_vfprintf(o, f, a); }
REAL(int, puts, const char *); int __wrap_puts(const char *s) { return SIM_ON ? 0 : __real_puts(s); }
REAL(int, putchar, int); int __wrap_putchar(int c) { return SIM_ON ? c : __real_putchar(c); }
REAL(int, fputc, int, FILE *); int __wrap_fputc(int c, FILE *f) { return SIM_ON ? c : __real_fputc(c, f); }
REAL(int, putc, int, FILE *); int __wrap_putc(int c, FILE *f) { return SIM_ON ? c : __real_putc(c, f); }
REAL(size_t, fwrite, const void *, size_t, size_t, FILE *); size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) { return SIM_ON ? b : __real_fwrite(p, a, b, f); }
void __wrap_perror(const char *) {}
}
