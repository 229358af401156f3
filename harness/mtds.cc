// MassTree server (mtd): real server, log, checkpoint, recovery and protocol code on a simulated machine (simos.cc).
// Clients talk to it over simulated connections; the machine is killed or loses power and the server starts again.
#include "hutil.h"
#include "simos.h"
#include <deque>
#include <map>
#include <set>
using namespace sim;
using std::string;
int mtd_main(int, char **); extern uint32_t masstree_sim_log_buffer;
static bool dying;
static void broken(const char *what, const char *f, int l, const char *a) { if (dying || sim_abort_is_crash(-1)) abort(); const char *b = strrchr(f, '/'); sim_fail("assertion", "the server gives up: %s %s (%s:%d)", what, a, b ? b + 1 : f, l); }
void fail_always_assert(const char *f, int l, const char *a, const char *) { broken("assertion", f, l, a); abort(); }
void fail_masstree_invariant(const char *f, int l, const char *a, const char *) { broken("invariant", f, l, a); abort(); }
void fail_masstree_precondition(const char *f, int l, const char *a, const char *) { broken("precondition", f, l, a); abort(); }
namespace {
enum { GET, PUT, REPL, DEL, PUTC, GETC, SLEEP, SCAN, CKPT, FLUSH, SETTLE, RECONN, CRASH, UGET, UPUT, UDEL, NKIND };
const char *const names[NKIND] = {"get", "put", "replace", "remove", "put-column", "get-columns", "sleep", "scan", "checkpoint", "wait for replies", "settle", "reconnect", "crash", "udp get", "udp put", "udp remove"};
// ------------------------------------------------------------------ model
int na, nb, ncol, enc, depth, nsrv, big; bool logging;
struct Rec { int kind, key, col, tid; bool known; uint64_t inv, res, val, ret; };   // key < na: whole rows; otherwise one column
std::vector<Rec> recs; std::map<int, uint64_t> base;    // this process's operations; what it recovered (model id -> value id)
uint64_t t0, settled, ids; bool verified; std::map<uint64_t, int> idcol;
int mid(int key, int col) { return key < na ? key : 1000 + key * 8 + col; }
string kstr(int k) {
  static const string S[8] = {"", string("\0", 1), "a", "aaaaaaaab", string("\0\0\0\0\0\0\0\0", 8), "zz", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", string("\xff\xff", 2)};
  switch (enc) { case 0: return fmt("key%02lld", k); case 1: return "user0000" + S[k & 7] + fmt("%lld", k >> 3); case 2: return "a long common prefix " + fmt("%08lld", k * 37 % 64); case 3: return string(1, (char)('A' + (k >> 3))) + S[k & 7]; case 5: return string(k, '\0'); case 6: return string(150 + k * 11, 'p') + fmt("%lld", k); default: return fmt("%lld", k * 7 % 53); }
}
size_t vlen(uint64_t id) { uint64_t h = id * 0x9E3779B97F4A7C15ull >> 40; int c = h % 16; h >>= 4; return c < 8 ? h % 4 : c < 13 ? 8 + h % 24 : c < 15 ? h % 300 : big == 2 ? 15000 + h % 8000 : big ? h % 4000 : 60; }
string val(uint64_t id, int col) { string s = fmt("v%lld.%lld:", id, col); size_t n = vlen(id); for (size_t i = 0; i < n; i++) s += (char)('a' + (id + i * 7 + col) % 26); return s; }
uint64_t unval(const string &s, int col, const char *what) {
  unsigned long long id; int c;
  if (sscanf(s.c_str(), "v%llu.%d:", &id, &c) != 2 || c != col || s != val(id, c)) sim_fail("bad-value", "%s: column %d holds %zu bytes that nobody wrote: %.40s", what, col, s.size(), s.c_str());
  return id;
}
// ------------------------------------------------------------------ msgpack
void pint(string &o, uint64_t v) { if (v < 128) o += (char)v; else if (v < 65536) { o += (char)0xcd; o += (char)(v >> 8); o += (char)v; } else { o += (char)0xce; for (int i = 24; i >= 0; i -= 8) o += (char)(v >> i); } }
void pstr(string &o, const string &s) { size_t n = s.size(); if (n < 32) o += (char)(0xa0 | n); else if (n < 256) { o += (char)0xd9; o += (char)n; } else if (n < 65536) { o += (char)0xda; o += (char)(n >> 8); o += (char)n; } else { o += (char)0xdb; for (int i = 24; i >= 0; i -= 8) o += (char)(n >> i); } o += s; }
void parr(string &o, size_t n) { if (n < 16) o += (char)(0x90 | n); else { o += (char)0xdc; o += (char)(n >> 8); o += (char)n; } }
struct J { int t = 0; int64_t i = 0; string s; std::vector<J> a; };   // 0 null 1 bool 2 int 3 str 4 array
int parse(const string &b, size_t &p, J &j) {   // 1 ok, 0 incomplete
  auto need = [&](size_t n) { return b.size() - p >= n; };
  auto num = [&](int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | (unsigned char)b[p++]; return v; };
  if (!need(1)) return 0;
  unsigned c = (unsigned char)b[p++]; size_t n = 0;
  if (c < 128) { j.t = 2; j.i = c; return 1; }
  if (c >= 0xe0) { j.t = 2; j.i = (int8_t)c; return 1; }
  if (c == 0xc0) return 1;
  if (c == 0xc2 || c == 0xc3) { j.t = 1; j.i = c & 1; return 1; }
  if (c >= 0xcc && c <= 0xd3) { int k = 1 << ((c - 0xcc) & 3); if (!need(k)) return 0; j.t = 2; uint64_t v = num(k); j.i = c < 0xd0 || k == 8 ? (int64_t)v : k == 1 ? (int8_t)v : k == 2 ? (int16_t)v : (int32_t)v; return 1; }
  if ((c & 0xe0) == 0xa0) { n = c & 31; j.t = 3; }
  else if (c == 0xd9 || c == 0xda || c == 0xdb) { int k = 1 << (c - 0xd9); if (!need(k)) return 0; n = num(k); j.t = 3; }
  else if ((c & 0xf0) == 0x90) { n = c & 15; j.t = 4; }
  else if (c == 0xdc || c == 0xdd) { int k = c == 0xdc ? 2 : 4; if (!need(k)) return 0; n = num(k); j.t = 4; }
  else sim_fail("protocol", "byte %02x in a reply cannot start a value", c);
  if (j.t == 3) { if (!need(n)) return 0; j.s.assign(b, p, n); p += n; return 1; }
  for (size_t i = 0; i < n; i++) { j.a.emplace_back(); if (!parse(b, p, j.a.back())) return 0; }
  return 1;
}
// ------------------------------------------------------------------ clients
struct Out { int seq, cmd; Op op; uint64_t id; std::vector<size_t> r; uint64_t inv; };
struct Cl { int c = -1; string in; std::deque<Out> out; int seq = 0; };
Cl cl[32]; int nready;
void send(Cl &c, const string &b, Rng &r) {
  if (b.size() > 1 && r.chance(0.2)) { size_t k = 1 + r.below(b.size() - 1); os::net_send(c.c, b.substr(0, k)); if (r.chance(0.5)) os::sleep(r.logu(100, 1000000)); os::net_send(c.c, b.substr(k)); }
  else os::net_send(c.c, b);
}
bool recv1(Cl &c, J &j) {
  for (;;) {
    { Off o; size_t p = 0; j = J(); if (!c.in.empty() && parse(c.in, p, j)) { c.in.erase(0, p); return true; } }
    string s; if (!os::net_recv(c.c, s)) return false;
    Off o; c.in += s;
  }
}
void need(bool ok, const char *what, const J &j) { if (!ok) sim_fail("protocol", "%s (reply of %zu items)", what, j.a.size()); }
void lost(Cl &c) { c.out.clear(); c.in.clear(); c.c = -1; }   // requests without a reply stay pending
bool pin; Rng crng[32];
int s_core(int me) { return pin ? me % nsrv : (int)crng[me].below(nsrv); }
void connect(Cl &c, Rng &r, int core) {
  c.c = os::net_connect();
  string b; { Off o; parr(b, 3); pint(b, 0); pint(b, 14); b += (char)0x81; pstr(b, "core"); pint(b, core); }
  os::net_send(c.c, b);    // the server reads the greeting with a single read: it must arrive in one piece
  J j; if (!recv1(c, j)) sim_fail("protocol", "the server closed a new connection");
  Off o; need(j.t == 4 && j.a.size() == 5 && j.a[1].i == 15 && j.a[2].t == 1 && j.a[2].i == 1, "bad greeting", j);
}
size_t rec(int tid, int kind, int key, int col, uint64_t v) { recs.push_back(Rec{kind, key, col, tid, false, t0 + sim_now(), ~0ull, v, 0}); return recs.size() - 1; }
void fin(size_t i, uint64_t ret, bool known = true) { recs[i].res = t0 + sim_now(); recs[i].ret = ret; recs[i].known = known; }
uint64_t rowid(const J &j, int key, size_t from) {     // group A: a row is written by one operation
  uint64_t id = unval(j.a[from].s, 0, "get"); size_t n = j.a.size() - from; size_t want = idcol.count(id) ? idcol[id] : 0;
  if (!want) sim_fail("bad-value", "key %d: value %llu was never written", key, (unsigned long long)id);
  if (n != want) sim_fail("torn-row", "key %d: row has %zu columns, write %llu made %zu", key, n, (unsigned long long)id, want);
  for (size_t c = 1; c < n; c++) { uint64_t x = unval(j.a[from + c].s, (int)c, "get"); if (x != id) sim_fail("torn-row", "key %d: column 0 is from write %llu, column %zu from write %llu", key, (unsigned long long)id, c, (unsigned long long)x); }
  return id;
}
void reply(Cl &, Out &o, const J &j) {
  need(j.t == 4 && j.a.size() >= 2 && j.a[0].t == 2 && j.a[1].t == 2, "malformed reply", j);
  if (j.a[0].i != o.seq || j.a[1].i != o.cmd + 1) sim_fail("pairing", "reply %lld to command %lld where %d to command %d was due", (long long)j.a[0].i, (long long)j.a[1].i - 1, o.seq, o.cmd);
  int k = (int)o.op.a;
  switch (o.op.kind) {
    case GET: case UGET: {
      need(j.a.size() >= 3 && j.a[2].t == 3, "malformed get reply", j);
      if (j.a[2].s == kstr(k)) { need(j.a.size() == 3, "malformed get reply", j); fin(o.r[0], 0); } else fin(o.r[0], rowid(j, k, 2)); break;
    }
    case GETC: {
      bool none = j.a.size() >= 3 && j.a[2].s == kstr(k);
      for (int c = 0; c < ncol; c++) {
        int at = 2 + (o.op.b >= 0 ? (c == o.op.b ? 0 : -3) : c); if (at < 0) continue;
        string s = none || at >= (int)j.a.size() ? "" : j.a[at].s;
        size_t i = o.op.b >= 0 ? 0 : c; fin(o.r[i], s.empty() ? 0 : unval(s, c, "get"));
      }
      break;
    }
    case PUT: case REPL: case UPUT: need(j.a.size() == 3 && j.a[2].t == 2 && (j.a[2].i == 1 || j.a[2].i == 2), "malformed put reply", j); fin(o.r[0], j.a[2].i == 2); break;
    case PUTC: need(j.a.size() == 3 && j.a[2].t == 2 && (j.a[2].i == 1 || j.a[2].i == 2), "malformed put reply", j); for (size_t i : o.r) fin(i, 0, false); break;
    case DEL: case UDEL: need(j.a.size() == 3 && j.a[2].t == 1, "malformed remove reply", j); fin(o.r[0], j.a[2].i); break;
    case CKPT: need(j.a.size() == 2, "malformed checkpoint reply", j); break;
    case SCAN: {
      need(j.a.size() % 2 == 0, "malformed scan reply", j);
      std::vector<std::pair<string, int64_t>> u; for (int i = 0; i < na + nb; i++) u.push_back({kstr(i), i < na ? i : mid(i, 0)});
      std::sort(u.begin(), u.end()); std::vector<int64_t> uni; for (auto &x : u) uni.push_back(x.second);
      size_t lo = 0, hi = u.size(); string st = kstr(k); while (u[lo].first != st) lo++;
      size_t n = (j.a.size() - 2) / 2; ScanObs ob; ob.inv = o.inv; ob.res = t0 + sim_now();
      if (n > (size_t)o.op.b) sim_fail("protocol", "a scan for %lld rows returned %zu", (long long)o.op.b, n);
      string prev; size_t last = lo;
      for (size_t i = 0; i < n; i++) {
        const J &kk = j.a[2 + 2 * i], &v = j.a[3 + 2 * i]; size_t x = 0; while (x < u.size() && u[x].first != kk.s) x++;
        if (kk.t != 3 || v.t != 3 || x == u.size()) sim_fail("bad-key", "a scan returned key %.30s, which nobody wrote", kk.s.c_str());
        if (kk.s < st || (i && kk.s <= prev)) sim_fail("scan-order", "a scan from %.30s returned %.30s after %.30s", st.c_str(), kk.s.c_str(), prev.c_str());
        prev = kk.s; last = x; if (!v.s.empty()) ob.got.push_back({u[x].second, unval(v.s, 0, "scan")});
        else if (u[x].second < na) sim_fail("torn-row", "a scan returned an empty row");
      }
      if (n == (size_t)o.op.b) hi = last + 1;
      for (size_t x = lo; x < hi; x++) { uint64_t v = 0; for (auto &g : ob.got) if (g.first == u[x].second) v = g.second; recs.push_back(Rec{SCAN, u[x].second < na ? (int)u[x].second : ((int)u[x].second - 1000) / 8, 0, sim_tid(), true, ob.inv, ob.res, 0, v}); }
      if (n) sim_probe("scan returned rows");
      break;
    }
  }
}
bool wait_out(Cl &c, size_t left) {
  while (c.out.size() > left) { J j; if (!recv1(c, j)) return false; Off o; Out x = c.out.front(); c.out.pop_front(); reply(c, x, j); }
  return true;
}
// builds the request; records the operations it stands for
string request(int tid, const Op &op, Out &x) {
  string b; int k = (int)op.a; string key = kstr(k); x.op = op; auto &r = x.r;
  auto head = [&](int n, int cmd) { parr(b, n); pint(b, x.seq); pint(b, cmd); x.cmd = cmd; };
  switch (op.kind) {
    case GET: case UGET: head(3, 2); pstr(b, key); r.push_back(rec(tid, GET, k, 0, 0)); break;
    case GETC: if (op.b >= 0) { head(4, 2); pstr(b, key); pint(b, op.b); r.push_back(rec(tid, GET, k, (int)op.b, 0)); } else { head(3, 2); pstr(b, key); for (int c = 0; c < ncol; c++) r.push_back(rec(tid, GET, k, c, 0)); } break;
    case PUT: case UPUT: { int n = 1 + (int)(op.b % ncol); x.id = ++ids; idcol[x.id] = ncol; n = ncol; head(3 + 2 * n, 6); pstr(b, key); for (int c = 0; c < n; c++) { pint(b, c); pstr(b, val(x.id, c)); } r.push_back(rec(tid, PUT, k, 0, x.id)); break; }
    case REPL: x.id = ++ids; idcol[x.id] = 1; head(4, 8); pstr(b, key); pstr(b, val(x.id, 0)); r.push_back(rec(tid, PUT, k, 0, x.id)); break;
    case DEL: case UDEL: head(3, 10); pstr(b, key); r.push_back(rec(tid, DEL, k, 0, 0)); break;
    case PUTC: { int c1 = (int)(op.b % ncol), n = op.c % 3 == 0 && c1 + 1 < ncol ? 2 : 1; head(3 + 2 * n, 6); pstr(b, key); for (int c = c1; c < c1 + n; c++) { uint64_t id = ++ids; pint(b, c); pstr(b, val(id, c)); r.push_back(rec(tid, PUT, k, c, id)); } break; }
    case CKPT: head(2, 12); break;
    case SCAN: head(5, 4); pstr(b, key); pint(b, op.b); pint(b, 0); x.inv = t0 + sim_now(); break;
  }
  return b;
}
void flushc(Cl &c) { if (c.c >= 0 && !wait_out(c, 0)) { sim_fail("protocol", "the server closed a connection"); } }
void request_tcp(int tid, Cl &c, const Op &op) {
  Out x; string b; { Off o; x.seq = ++c.seq & 0x3fff; b = request(tid, op, x); c.out.push_back(x); }
  send(c, b, crng[tid]);
  if (!wait_out(c, depth)) sim_fail("protocol", "the server closed a connection");
}
void die(); 
// ------------------------------------------------------------------ recovery
void recovered(int tid) {
  Cl &c = cl[tid]; std::map<int, uint64_t> now;
  for (int k = 0; k < na + nb; k++) {
    Op op; op.kind = k < na ? GET : GETC; op.a = k; op.b = -1;
    size_t n0 = recs.size();
    Out x; string b; { Off o; x.seq = ++c.seq & 0x3fff; b = request(tid, op, x); c.out.push_back(x); }
    os::net_send(c.c, b);
    if (!wait_out(c, 0)) sim_fail("protocol", "the server closed a connection");
    Off o; for (size_t i = n0; i < recs.size(); i++) if (recs[i].ret) now[mid(recs[i].key, recs[i].col)] = recs[i].ret;
    recs.resize(n0);
  }
  Off o;
  // the surviving operations form a prefix: everything that had completed before some surviving write began, or that had
  // settled, survives; nothing else appears
  std::map<uint64_t, Rec *> wr; for (auto &r : recs) if (r.kind == PUT) wr[r.val] = &r;
  uint64_t T = settled; unsigned long long who = 0;
  for (auto &e : now) {
    auto b = base.find(e.first); if (b != base.end() && b->second == e.second) continue;
    auto w = wr.find(e.second);
    if (w == wr.end() || mid(w->second->key, w->second->col) != e.first) sim_fail("invention", "after recovery item %d holds value %llu, which is not one that was written there in the last process", e.first, (unsigned long long)e.second);
    if (w->second->inv > T) { T = w->second->inv; who = e.second; }
  }
  for (auto &a : recs) {
    if (a.kind == GET || a.kind == SCAN || a.res >= T) continue;
    if (a.kind == DEL && (!a.known || !a.ret)) continue;
    int m = mid(a.key, a.col); uint64_t v = now.count(m) ? now[m] : 0; bool ok = false; unsigned long long is = v;
    if (v) { auto w = wr.find(v); uint64_t wres = w == wr.end() ? 0 : w->second->res; ok = v == a.val || wres > a.inv; }
    else { ok = a.kind == DEL; for (auto &r : recs) if (r.kind == DEL && r.key == a.key && r.col == a.col && r.res > a.inv && !(r.known && !r.ret)) ok = true; }
    if (!ok) sim_fail("lost-write", "%s of key %d (value %llu) had completed at %llu, but after recovery item %d is %llu%s %llu", a.kind == DEL ? "remove" : "write", a.key, (unsigned long long)a.val, (unsigned long long)a.res, m, is, who ? "; it precedes the surviving write" : "; it had settled at", who ? who : (unsigned long long)settled);
  }
  if (now.size()) sim_probe("recovered a non-empty state");
  if (recs.size() && now == base) sim_probe("everything of the last process was lost or absent");
  int miss = 0; for (auto &r : recs) if (r.kind == PUT && r.res != ~0ull && r.res >= T && !(now.count(mid(r.key, r.col)) && now[mid(r.key, r.col)] == r.val)) miss = 1;
  if (miss) sim_probe("recent writes lost in the crash");
  base = now; recs.clear(); settled = 0; verified = true; t0 += 1; sim_wake(&verified);
}
// ------------------------------------------------------------------ histories
void lin() {
  H.reset();
  std::set<int> ms; for (auto &r : recs) ms.insert(mid(r.key, r.col));
  for (auto &b : base) if (ms.count(b.first)) H.add(b.first, H_PUT, b.second, 0, 0, 1, false);
  for (auto &r : recs) { int m = mid(r.key, r.col);
    if (r.kind == SCAN) H.add(m, H_SEEN, 0, r.ret, r.inv + 2, r.res + 2, true);
    else if (r.kind == GET) { if (r.known) H.add(m, H_GET, 0, r.ret, r.inv + 2, r.res + 2, true); }
    else H.add(m, r.kind == DEL ? H_DEL : H_PUT, r.val, r.ret, r.inv + 2, r.res == ~0ull ? r.res : r.res + 2, r.known);
  }
  H.check("server history");
}
void put8(string &o, uint64_t v) { o.append((char *)&v, 8); }
uint64_t get8(const char *&p) { uint64_t v; memcpy(&v, p, 8); p += 8; return v; }
int nphases; bool power;
void die() {      // the process is gone; what the disk holds goes to the next one
  sim_off();
  lin();
  if (sim_phase() + 1 >= nphases) sim_fail("internal", "crash in the last phase");
  string o; put8(o, t0 + sim_now() + 10); put8(o, settled); put8(o, ids);
  put8(o, base.size()); for (auto &b : base) put8(o, b.first), put8(o, b.second);
  put8(o, recs.size()); for (auto &r : recs) { put8(o, r.kind); put8(o, r.key); put8(o, r.col); put8(o, r.tid); put8(o, r.known); put8(o, r.inv); put8(o, r.res); put8(o, r.val); put8(o, r.ret); }
  put8(o, idcol.size()); for (auto &e : idcol) put8(o, e.first), put8(o, e.second);
  o += os::fs_after_crash(power);
  if (verified || !sim_phase()) sim_probe("crash while serving"); else sim_probe("crash during recovery");
  sim_next_phase(o.data(), o.size());
}
void dump(const string &name, const string &d) { static FILE *D = fopen(getenv("MTDS_DUMP"), "a");    // MTDS_DUMP=FILE: what the log holds, for debugging
  fprintf(D, "%s: %zu bytes\n", name.c_str(), d.size()); if (name.find("gen") != string::npos) fprintf(D, "  %s\n", d.c_str()); if (name.find("log") == string::npos) return;
  for (size_t p = 0; p + 8 <= d.size();) { uint32_t cmd, sz; memcpy(&cmd, &d[p], 4); memcpy(&sz, &d[p + 4], 4); if (sz < 8 || p + sz > d.size()) { fprintf(D, "  torn\n"); break; } uint64_t t = 0; if (sz >= 16) memcpy(&t, &d[p + 8], 8);
    fprintf(D, "  @%zu %.4s size %u, %llu", p, d.c_str() + p, sz, sz >= 16 ? (unsigned long long)t : 0ull); if (sz > 20) { fprintf(D, " "); for (size_t i = p + 16; i < p + sz && i < p + 70; i++) fputc(d[i] >= 32 && d[i] < 127 ? d[i] : '.', D); } fputc(10, D); p += sz; }
  fflush(D);
}
void load() {
  size_t n; const char *p = sim_blob(&n), *e = p + n; t0 = get8(p); settled = get8(p); ids = get8(p);
  for (uint64_t k = get8(p); k; k--) { int a = (int)get8(p); base[a] = get8(p); }
  for (uint64_t k = get8(p); k; k--) { Rec r; r.kind = (int)get8(p); r.key = (int)get8(p); r.col = (int)get8(p); r.tid = (int)get8(p); r.known = get8(p); r.inv = get8(p); r.res = get8(p); r.val = get8(p); r.ret = get8(p); recs.push_back(r); }
  for (uint64_t k = get8(p); k; k--) { uint64_t a = get8(p); idcol[a] = (int)get8(p); }
  if (getenv("MTDS_DUMP")) { const char *q = p; for (uint64_t k = get8(q); k; k--) { size_t l = get8(q); string f(q, l); q += l; l = get8(q); dump(f, string(q, l)); q += l; } }
  os::fs_load(p, e - p);
}
// ------------------------------------------------------------------ the run
char args[20][40]; char *argv_[20]; int argc_;
void server(void *) { mtd_main(argc_, argv_); sim_fail("exit", "the server's main returned"); }
const Spec *cur_spec; int tpp_ = 4;
void setup(const Spec &s) {
  cur_spec = &s;
  na = (int)s.get("na"); nb = (int)s.get("nb"); ncol = (int)s.get("ncol", 3); enc = (int)s.get("enc"); depth = (int)s.get("depth"); nsrv = sim_phase() < s.get("jfrom") ? 1 : (int)s.get("j", 1); big = (int)s.get("big"); logging = s.get("log"); power = s.get("power"); pin = s.get("pin");
  nphases = ((int)s.thr.size() + tpp_ - 1) / tpp_;
  os::cfg = os::Cfg(); os::cfg.fsync_ms = (int)s.get("fsync"); os::cfg.power = power; os::cfg.short_read = (int)s.get("short"); os::cfg.udp_loss = (int)s.get("uloss"); os::cfg.udp_dup = (int)s.get("udup"); os::cfg.stalls = (int)s.get("stalls"); { char b[16]; snprintf(b, sizeof b, "crashop%d", sim_phase()); os::cfg.crash_op = (int)s.get(b); snprintf(b, sizeof b, "crashq%d", sim_phase()); os::cfg.crash_quiet = (int)s.get(b); os::cfg.crash_delay = s.get("crashdl"); } os::cfg.io_faults = s.get("iof") && sim_phase() + 1 < nphases;
  verified = !sim_phase(); t0 = 0; settled = 0; ids = 0; recs.clear(); base.clear(); idcol.clear();
  if (sim_phase()) load();
  sim_oob_slack(8);   // string_slice::equals_sloppy compares whole words and shifts the surplus out
  masstree_sim_log_buffer = (uint32_t)s.get("lbuf", 1 << 20);
  argc_ = 0; auto arg = [&](const string &a) { snprintf(args[argc_], 40, "%s", a.c_str()); argv_[argc_] = args[argc_]; argc_++; };
  arg("mtd"); arg("-j"); arg(fmt("%lld", nsrv)); if (!logging) arg("-n"); arg("--ld"); arg("d"); arg("--cd"); arg("d");
  int ck = (int)s.get("ckpt"); arg(ck ? fmt("--checkpoint=%lld.%02lld", ck / 100, ck % 100) : "--checkpoint=1000000");
  if (s.get("ei")) { arg("--epoch-interval"); arg(fmt("%lld", s.get("ei"))); }
  for (int i = 0; i < 32; i++) { cl[i] = Cl(); crng[i] = Rng(s.seed * 77 + i + sim_phase() * 1000); }
  argv_[argc_] = nullptr;
  spawn(server, nullptr);
}
void tb(int tid) {
  if (!tid) return;
  Off off; int me = (tid - 1) % tpp_;
  // every phase after the first begins with one client that looks at what was recovered
  bool first = me == 0;
  if (sim_phase() && !first) { Off o; while (!verified) sim_block(&verified); }
  connect(cl[me], crng[me], s_core(me));
  if (sim_phase() && first) recovered(me);
}
void exec(int tid, const Op &op) {
  Off off; int me = (tid - 1) % tpp_; Cl &c = cl[me];
  switch (op.kind) {
    case SLEEP: os::sleep(op.a); break;
    case FLUSH: flushc(c); break;
    case SETTLE: { flushc(c); uint64_t s; { Off o; s = t0 + sim_now(); } os::sleep(op.a); Off o; if (s > settled) settled = s; sim_probe("writes settled"); break; }
    case RECONN: { if (crng[me].chance(0.5)) flushc(c); os::net_close(c.c); { Off o; if (c.out.size()) sim_probe("connection closed with requests outstanding"); lost(c); } connect(c, crng[me], s_core(me)); break; }
    case CRASH: { if (op.a) os::sleep(op.a); if (sim_phase() + 1 < nphases) die(); break; }
    case UGET: case UPUT: case UDEL: {
      Out x; string b; { Off o; x.seq = ++c.seq & 0x3fff; b = request(me, op, x); }
      os::udp_send(2117 + (int)(op.c % nsrv), me + 1, b);
      uint64_t dl = sim_time_ns() + 50000000;
      for (;;) { string s; if (!os::udp_recv(me + 1, s, dl)) { sim_probe("datagram request timed out"); break; } Off o; J j; size_t p = 0; need(parse(s, p, j) && p == s.size(), "malformed datagram", j); if (j.t == 4 && j.a.size() && j.a[0].i != x.seq) continue; reply(c, x, j); break; }
      break;
    }
    default: request_tcp(me, c, op);
  }
}
void te(int tid) { Off off; if (tid) flushc(cl[(tid - 1) % tpp_]); }
void finish(const Spec &) { if (sim_phase() + 1 < nphases) die(); lin(); }
string describe(const Op &o) { return fmt(names[o.kind]) + fmt(" %lld %lld %lld", o.a, o.b, o.c); }
// ------------------------------------------------------------------ workloads
void base_gen(Rng &r, Spec &s, int phases) {
  s.par["j"] = r.chance(0.25) ? 1 : 2;
  s.par["na"] = r.range(1, 6); s.par["nb"] = r.range(0, 3); s.par["ncol"] = r.range(1, 4); s.par["enc"] = r.range(0, 6); s.par["depth"] = r.chance(0.5) ? 0 : r.range(1, 5);
  if (r.chance(0.3)) s.par["lbuf"] = r.logu(2048, 16384);
  s.par["big"] = r.chance(0.1) ? 2 : r.chance(0.2); if (s.par["big"] == 2 && s.par["ncol"] > 2) s.par["ncol"] = 2; if (s.par["big"] && s.par.count("lbuf")) s.par["lbuf"] = s.par["lbuf"] * 16 + 40000;   // a row's offsets have 16 bits
  s.par["short"] = r.chance(0.5) ? 0 : r.range(1, 90);
  if (r.chance(0.5)) { s.par["ei"] = r.range(1, 1000); }
  (void)phases;
}
void ops_gen(Rng &r, Spec &s, std::vector<Op> &v, int n, bool slow, bool udp) {
  int na = (int)s.get("na"), nb = (int)s.get("nb");
  int ww[6] = {0}; for (int &x : ww) x = (int)r.range(1, 10);
  for (int i = 0; i < n; i++) {
    if (slow && r.chance(0.4)) { Op o; o.kind = SLEEP; o.a = r.chance(0.5) ? r.logu(1000, 1000000) : r.logu(1000000, 500000000); v.push_back(o); }
    Op o; bool B = nb && r.chance(0.3); o.a = B ? na + r.below(nb) : r.below(na); o.b = r.below(8); o.c = r.below(100);
    if (B) { o.kind = r.chance(0.6) ? PUTC : GETC; if (o.kind == GETC) o.b = r.chance(0.5) ? -1 : (int64_t)r.below(s.get("ncol")); }
    else { int k = (int)r.below(ww[0] + ww[1] + ww[2] + ww[3]); o.kind = k < ww[0] ? GET : k < ww[0] + ww[1] ? PUT : k < ww[0] + ww[1] + ww[2] ? REPL : DEL; }
    if (r.chance(0.05)) { o.kind = SCAN; o.a = r.below(na + nb); o.b = r.range(1, na + nb + 1); }
    else if (r.chance(0.02)) o.kind = RECONN;
    else if (r.chance(0.05)) o.kind = FLUSH;
    else if (udp && !B && r.chance(0.3)) o.kind = o.kind == GET ? UGET : o.kind == DEL ? UDEL : UPUT;
    v.push_back(o);
  }
}
void sched_gen(Rng &r, Spec &s) {
  auto &c = s.sched; double x = r.below(100) / 100.0;
  c.strat = x < 0.45 ? 0 : x < 0.6 ? 1 : x < 0.8 ? 2 : 3; c.p = r.chance(0.3) ? 0.2 : r.chance(0.5) ? 0.02 : 0.002; c.pconf = c.strat == 2 ? 0.3 : 0; c.depth = (int)r.range(1, 6); c.span = r.logu(1000, 200000);
  if (c.strat == 3 || r.chance(0.2)) { c.strat = 3; s.par["tpass"] = r.chance(0.3) ? 0 : r.logu(200, 5000); c.depth = (int)r.range(1, 12); c.span = r.logu(100, 20000); if (r.chance(0.6)) s.par["srmw"] = r.logu(1, 200), c.span = r.logu(1000, 200000); }
}
void gen_server(Rng &r, Spec &s) {
  base_gen(r, s, 1); s.par["log"] = r.chance(0.3); s.par["step_cap"] = 2000000; s.par["fair_cap"] = 4000000;
  bool udp = r.chance(0.4); if (udp) { s.par["uloss"] = r.chance(0.5) ? 0 : r.range(1, 30); }
  int n = (int)r.range(2, 4); s.thr.resize(n);
  for (auto &v : s.thr) ops_gen(r, s, v, (int)r.range(4, 20), r.chance(0.3), udp);
  sched_gen(r, s);
}
// one log falls silent and wakes while another is busy; the crash comes soon after the wake
void gen_wake(Rng &r, Spec &s) {
  int ph = r.chance(0.6) ? 2 : 3; bool aimed = r.chance(0.35); if (aimed) s.par["crashdl"] = r.logu(1, 3000);
  base_gen(r, s, ph); s.par["log"] = 1; s.par["step_cap"] = 2000000; s.par["fair_cap"] = 4000000; s.par["j"] = r.chance(0.8) ? 2 : 3; s.par["pin"] = 1; s.par["depth"] = 0;
  s.par["fsync"] = r.chance(0.5) ? 0 : r.logu(1, 100); if (r.chance(0.8)) s.par["stalls"] = r.range(1, 3);
  s.par["ei"] = r.chance(0.5) ? r.range(1, 100) : r.range(100, 500);
  s.thr.resize(ph * tpp_);
  for (int p = 0; p < ph; p++) {
    int n = p + 1 == ph ? 1 : (int)s.par["j"], idle = (int)r.below(n); int64_t na = s.get("na"), nb = s.get("nb");
    auto wr = [&](std::vector<Op> &v) { Op o; bool B = nb && r.chance(0.3); o.a = B ? na + r.below(nb) : r.below(na); o.b = r.below(8); o.c = r.below(100); o.kind = B ? PUTC : r.chance(0.5) ? PUT : r.chance(0.5) ? REPL : r.chance(0.6) ? DEL : GET; v.push_back(o); };
    auto nap = [&](std::vector<Op> &v, int64_t ns) { Op o; o.kind = SLEEP; o.a = ns; v.push_back(o); };
    for (int i = 0; i < n; i++) {
      auto &v = s.thr[p * tpp_ + i]; if (p + 1 == ph) { wr(v); continue; }
      if (i != idle) { int64_t g = r.logu(20000000, 300000000); int k = (int)r.range(6, 24); for (int x = 0; x < k; x++) { wr(v); nap(v, g / 2 + r.below(g)); } }
      else { int k = (int)r.range(1, 3); if (r.chance(0.7)) wr(v); for (int x = 0; x < k; x++) { nap(v, 400000000 + r.logu(1000000, 2000000000)); int m = (int)r.range(1, 3); while (m--) wr(v); } }
    }
    if (p + 1 < ph && aimed && !p) { s.par["crashq0"] = r.range(1, 4); continue; }
    if (p + 1 < ph) { Op o; o.kind = CRASH; o.a = r.chance(0.5) ? r.below(1000000000) : r.below(50000000);
      if (r.chance(0.5)) s.thr[p * tpp_ + idle].push_back(o); else { o.a = 500000000 + r.below(2500000000ull); s.thr[p * tpp_ + tpp_ - 1].push_back(o); } }
  }
  sched_gen(r, s);
  if (r.chance(0.4)) { auto &c = s.sched; c.strat = 3; c.depth = (int)r.range(1, 6); c.span = r.logu(2000, 200000); c.pconf = 0; s.par["tpass"] = r.logu(300, 4000); s.par["srmw"] = r.logu(2, 200); }
}
void gen_again(Rng &r, Spec &s);
void gen_crash(Rng &r, Spec &s) {
  if (r.chance(0.35)) return gen_wake(r, s);
  if (r.chance(0.15)) return gen_again(r, s);
  int ph = r.chance(0.6) ? 2 : r.chance(0.7) ? 3 : 4;
  base_gen(r, s, ph); s.par["log"] = 1; s.par["step_cap"] = 2000000; s.par["fair_cap"] = 4000000;
  if (r.chance(0.2)) s.par["j"] = 2, s.par["jfrom"] = r.range(1, ph - 1);   // later processes have more threads and so more logs
  sched_gen(r, s);
  s.par["fsync"] = r.chance(0.3) ? 0 : r.logu(1, 300); if (r.chance(0.3)) s.par["stalls"] = r.range(1, 3);
  s.thr.resize(ph * tpp_);
  for (int p = 0; p < ph; p++) {
    int n = p + 1 == ph ? (int)r.range(1, 2) : (int)r.range(1, tpp_ - 1);
    bool slow = p + 1 < ph && r.chance(0.7);
    for (int i = 0; i < n; i++) ops_gen(r, s, s.thr[p * tpp_ + i], p + 1 == ph ? (int)r.range(1, 4) : (int)r.range(2, 14), slow, false);
    if (p + 1 < ph) {
      auto &v = s.thr[p * tpp_ + r.below(n)];
      if (r.chance(0.4)) { Op o; o.kind = SETTLE; o.a = 5000000000ll + s.get("stalls") * 5000000000ll + 2000000ll * s.get("tpass") + r.below(1000000000); v.insert(v.begin() + r.below(v.size() + 1), o); if (r.chance(0.3)) ops_gen(r, s, v, 3, slow, false); }
      int how = (int)r.below(12);
      if (how >= 10) { char b[16]; snprintf(b, sizeof b, "crashop%d", p); s.par[b] = r.logu(1, 60); s.par["crashdl"] = r.logu(1, 3000); }
      if (how < 5) { Op o; o.kind = CRASH; o.a = r.chance(0.2) ? 0 : r.logu(100000, 3000000000ull); s.thr[p * tpp_ + tpp_ - 1].push_back(o); }
      else if (how < 7) { char b[16]; snprintf(b, sizeof b, "crash%d", p); s.par[b] = r.logu(200, 300000); }
      else if (how < 8) { Op o; o.kind = CRASH; auto &x = s.thr[p * tpp_ + r.below(n)]; x.insert(x.begin() + r.below(x.size() + 1), o); }
    }
  }
}
void gen_power(Rng &r, Spec &s) { gen_crash(r, s); s.par["power"] = 1; if (r.chance(0.3)) { s.par["iof"] = 1; s.sched.iofault = r.chance(0.5) ? 0.01 : 0.1; } }
// the server dies again while it recovers or soon after: crashes aimed at what recovery does to the files
void gen_again(Rng &r, Spec &s) {
  int ph = r.chance(0.7) ? 3 : 4;
  base_gen(r, s, ph); s.par["log"] = 1; s.par["step_cap"] = 2000000; s.par["fair_cap"] = 4000000; s.par["pin"] = r.chance(0.5); s.par["depth"] = 0; if (s.par["nb"] > 2) s.par["nb"] = 2;
  s.par["fsync"] = r.chance(0.5) ? 0 : r.logu(1, 100); if (r.chance(0.5)) s.par["ei"] = r.range(20, 300);
  sched_gen(r, s); s.par["crashdl"] = r.logu(1, 2000);
  s.thr.resize(ph * tpp_); int64_t na = s.get("na"), nb = s.get("nb");
  auto wr = [&](std::vector<Op> &v) { Op o; bool B = nb && r.chance(0.3); o.a = B ? na + r.below(nb) : r.below(na); o.b = r.below(8); o.c = r.below(100); o.kind = B ? PUTC : r.chance(0.4) ? PUT : r.chance(0.6) ? REPL : r.chance(0.7) ? DEL : GET; v.push_back(o); };
  for (int p = 0; p < ph; p++) {
    int n = p + 1 == ph ? 1 : p ? (int)r.range(1, 2) : (int)r.range(2, 3);
    for (int i = 0; i < n; i++) { auto &v = s.thr[p * tpp_ + i]; int k = p ? (int)r.range(1, 4) : (int)r.range(6, 20); int64_t g = r.logu(20000000, 400000000); for (int x = 0; x < k; x++) { wr(v); if (p + 1 < ph) { Op o; o.kind = SLEEP; o.a = g / 2 + r.below(g); v.push_back(o); } } }
    if (p + 1 == ph) continue;
    if (!p) { Op o; o.kind = CRASH; o.a = 500000000 + r.logu(10000000, 3000000000ull); s.thr[tpp_ - 1].push_back(o); }
    else if (r.chance(0.8)) { char b[16]; snprintf(b, sizeof b, "crashop%d", p); s.par[b] = r.range(1, 16); }
    else { char b[16]; snprintf(b, sizeof b, "crash%d", p); s.par[b] = r.logu(200, 30000); }
  }
}
// queries that are held up behind their log's lock while checkpoints begin and end; the crash comes after a commit
void gen_held(Rng &r, Spec &s) {
  base_gen(r, s, 2); s.par["log"] = 1; s.par["step_cap"] = 2000000; s.par["fair_cap"] = 4000000; s.par["j"] = r.chance(0.8) ? 2 : 3; s.par["pin"] = 1; s.par["depth"] = 0;
  if (s.par["na"] > 4) s.par["na"] = r.range(1, 4);
  if (s.par["nb"] > 2) s.par["nb"] = r.range(1, 2);
  s.par["ckpt"] = r.range(10, 100); s.par["tpass"] = r.logu(300, 4000); s.par["srmw"] = r.logu(2, 200); s.par["fsync"] = r.chance(0.7) ? 0 : r.logu(1, 100);
  auto &c = s.sched; c.strat = 3; c.depth = (int)r.range(1, 5); c.span = r.logu(2000, 200000); c.pconf = 0; c.p = 0.02;
  s.thr.resize(2 * tpp_); int64_t na = s.get("na"), nb = s.get("nb"); int n = (int)r.range(2, 3);
  auto wr = [&](std::vector<Op> &v) { Op o; bool B = nb && r.chance(0.2); o.a = B ? na + r.below(nb) : r.below(na); o.b = r.below(8); o.c = r.below(100); o.kind = B ? PUTC : r.chance(0.5) ? PUT : r.chance(0.8) ? REPL : r.chance(0.5) ? DEL : GET; v.push_back(o); };
  for (int i = 0; i < n; i++) { auto &v = s.thr[i]; int k = (int)r.range(2, 10); int64_t g = r.logu(5000000, 500000000); for (int x = 0; x < k; x++) { wr(v); Op o; o.kind = SLEEP; o.a = g / 2 + r.below(g); v.push_back(o); } }
  Op o; o.kind = CRASH; o.a = 300000000 + r.logu(1000000, 3000000000ull); s.thr[r.below(n)].push_back(o); wr(s.thr[tpp_]);
}
void gen_ckpt(Rng &r, Spec &s) {
  if (r.chance(0.2)) { gen_held(r, s); s.par["power"] = r.chance(0.4); return; }
  bool again = r.chance(0.25); again ? gen_again(r, s) : gen_crash(r, s); s.par.erase("jfrom");   // a checkpoint can only be read by as many threads as wrote it
  s.par["ckpt"] = r.range(20, 200); s.par["power"] = r.chance(again ? 0.7 : 0.4);
  for (auto &v : s.thr) if (v.size() && r.chance(0.3)) { Op o; o.kind = CKPT; v.insert(v.begin() + r.below(v.size()), o); }
}
Harness mk(const char *prop, const char *what, void (*g)(Rng &, Spec &), bool crash) {
  Harness h{}; h.prop = prop; h.what = what; h.real = "MassTree mtd.cc, log.cc, checkpoint.cc, file.cc, kvio.cc, json.cc, msgpack.cc, query_masstree.cc, tree"; h.stub = "kernel: sockets, epoll, pipes, files, timers";
  h.gen = g; h.setup = setup; h.thread_begin = tb; h.exec = exec; h.thread_end = te; h.finish = finish; h.describe = describe; h.tpp = tpp_; if (crash) h.crash = die;
  return h;
}
Reg r1(mk("S01", "every reply of the server fits a linearizable key-value map; rows are written whole", gen_server, false));
Reg r2(mk("S02", "a killed server recovers a causal prefix that holds every settled write", gen_crash, true));
Reg r3(mk("S03", "ditto after a power failure or a full disk", gen_power, true));
Reg r4(mk("S04", "ditto with checkpoints", gen_ckpt, true));
}
