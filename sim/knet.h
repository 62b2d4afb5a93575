// Simulated kernel: TCP sockets, epoll, eventfd, name resolution.
#pragma once
#include "rt.h"
#include <deque>
#include <functional>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/epoll.h>

namespace sim {

struct Addr {
  sockaddr_storage s; socklen_t len;
};
Addr addr4(uint8_t a, uint8_t b, uint8_t c, uint8_t d, uint16_t port);
Addr addr6(uint16_t last, uint16_t port);              // ::last
inline Addr loop4(uint16_t port) { return addr4(127, 0, 0, 1, port); }
inline Addr loop6(uint16_t port) { return addr6(1, port); }

// Knobs of the simulated network. Filled randomly by netInit() unless a workload
// overrides them afterwards.
struct NetCfg {
  uint32_t sndbuf, rcvbuf;
  uint64_t latency;       // One way.
  uint32_t jitter;        // 0: none, otherwise up to that many latencies more.
  uint32_t mss;
  bool acceptCritical;    // F_accept_err may return errors which break a server.
  int acceptFailed = 0;            // The last such error.
};
extern NetCfg g_net;
void netInit();

// Behaviour of an address nobody listens on, or overriding the listener.
enum IpMode { IP_NORMAL, IP_REFUSE, IP_TIMEOUT, IP_UNREACH, IP_BLACKHOLE, IP_UNREACH_NOW };
void ipMode(const Addr& a, IpMode m);

// Name resolution.
struct DnsHost { std::string name; int rc; int sysErr; std::vector<Addr> addrs; uint64_t delay; bool extraFamilies; };
void dnsAdd(const DnsHost& h);
void dnsClear();
int dnsLiveLists();
uint64_t dnsCalls();
uint64_t dnsRunning();                  // The number of the call which is going on, or 0.
uint64_t dnsCallsSince(uint64_t ns);                      // How many started not earlier.

// Raw peers, never affected by faults. Blocking, in the calling fiber, unless said otherwise.
int peerListen(Addr& a);                               // Fills the port.
int peerAccept(int fd, uint64_t timeout);              // -1 on timeout.
int peerConnect(const Addr& a, uint64_t timeout);      // -1 with errno.
long peerSend(int fd, const void* d, size_t n);        // Everything or -1 with errno.
long peerSendSome(int fd, const void* d, size_t n);    // Non-blocking, -1/EAGAIN.
long peerRecv(int fd, void* d, size_t n, uint64_t timeout);  // 0 - EOF, -1 error, -2 timeout.
void peerClose(int fd);
void peerReset(int fd);                                // RST to the other side.
void peerShutdown(int fd, int how);
uint64_t fdFile(int64_t fd);                           // Identity of what the descriptor is, 0 if closed.
void fdGive(int fd);                                   // The descriptor isn't the harness' one any more.
int sockOptNoDelay(int fd);
bool sockOptKeepAlive(int fd, int& on, int& idle, int& total);                            // What was set, -1 unset.
// Kill the connection of the address pair as the network would do.
int netKillAll(int err);
void netStallAll(uint64_t ns);                         // A partition of all the current connections.
// Send and receive failures which don't break the connection. The hook is asked whether the file can fail (the
// error is 0) and is told about the failures.
extern bool (*g_ioFail)(uint64_t file, bool send, int err);
// The errors injected into the file. Dirty when the connection was ended or broken too.
struct IoFail { uint64_t file; int sendErr, recvErr; bool dirty; };
IoFail ioFailOf(uint64_t file);
uint64_t netSockets();                                 // Created in this run.
int lastAcceptedFd();
struct SockStat { uint64_t sent, recvd; };
// Sees and may change all the bytes sent by the sockets.
extern std::function<void(const Addr& from, const Addr& to, uint8_t* d, size_t n)> g_wire;

// ---- For kuring.cpp only.
struct File;
struct KSock;
File* fileGet(int fd);                                 // nullptr if not simulated. No ref.
void fileRef(File* f);
void fileUnref(File* f);
int newRingFd(void* ring);                             // A descriptor of a ring.
KSock* fileSock(File* f);
bool fileIsEventfd(File* f);
// Non-blocking attempts. -errno on errors.
long kSend(KSock* s, const iovec* v, size_t n, bool noFault);
long kRecv(KSock* s, const iovec* v, size_t n, bool noFault);
int kAccept(KSock* s, sockaddr* a, socklen_t* len, int flags, bool noFault);
int kConnectStart(KSock* s, const sockaddr* a, socklen_t len, bool noFault);
int kConnectResult(KSock* s);                          // -EINPROGRESS until done.
long kEventfdRead(File* f, uint64_t* v);
void kEventfdSignal(File* f, uint64_t v);
extern void (*g_fileHook)(File* f);                    // Something changed about the file.
}
