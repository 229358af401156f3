// A simulated operating system for the MassTree server: files with crash semantics, stream and datagram sockets, pipes,
// epoll, timers. Everything lives in the simulated process; see simos.cc.
#pragma once
#include "sim.h"
#include <string>
#include <vector>
#include <map>
namespace os {
struct Cfg { int fsync_ms = 0; bool power = false; int short_read = 0, udp_loss = 0, udp_dup = 0; bool io_faults = false; int stalls = 0; int crash_op = 0, crash_quiet = 0; uint64_t crash_delay = 0; };   // crash_op: killed crash_delay steps after that file operation; crash_quiet: after that write to a file that had been silent
extern Cfg cfg;
// ---- files
std::string fs_after_crash(bool power);      // serialised durable state after a process kill (power=false) or a power failure
void fs_load(const char *p, size_t n);
void fs_dump(const char *what);
extern uint64_t n_fsync, n_write, n_commit;
// ---- client side of the network (called from client threads, outside the simulation: only these calls are steps)
void sleep(uint64_t ns);
int net_connect();                            // waits until the server listens
void net_send(int c, const std::string &b);
bool net_recv(int c, std::string &b);         // waits for data; false: the server closed the connection
void net_close(int c);
bool net_readable(int c);
void udp_send(int port, int me, const std::string &b);
bool udp_recv(int me, std::string &b, uint64_t deadline_ns);
extern int nlisten;
}
