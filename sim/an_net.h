// Shared by the network workloads: framed streams and a recorder of an asynchronous socket.
#pragma once
#include "knet.h"
#include "mg/aio/IOCore.h"
#include "mg/aio/TCPSocket.h"
#include "mg/aio/TCPSocketSubscription.h"
#include "mg/box/Error.h"
#include "mg/net/Buffer.h"
#include "mg/net/Host.h"

namespace sim {
using mg::net::Buffer; using mg::net::BufferLink; using mg::net::BufferRaw; using mg::net::BufferCopy;

constexpr int POSTERS = 8, P_CB = 6, P_BCAST = 7;   // Callbacks and broadcasts.
inline uint8_t frameByte(uint8_t salt, uint8_t poster, uint32_t seq, uint32_t i) {
  return (uint8_t)(salt * 31 + poster * 17 + seq * 7 + i * 13 + (i >> 8) * 3);
}
constexpr uint32_t FRAME_HDR = 7;
typedef std::vector<uint8_t> Bytes;
void makeFrame(Bytes& out, uint8_t salt, uint8_t poster, uint32_t seq, uint32_t len);
// Checks that bytes are an order-preserving merge of whole frames of each poster.
struct Parser {
  uint8_t salt = 0;
  const char* who = ""; int id = 0; const char* props = "C19";
  uint64_t total = 0;
  uint32_t next[POSTERS] = {}; uint32_t bcastMin = 0;
  uint8_t hdr[FRAME_HDR]; uint32_t nhdr = 0;
  uint32_t len = 0, pos = 0;
  void reset(uint8_t s) { *this = Parser(who, id, props, s); }
  Parser(const char* w = "", int i = 0, const char* p = "C19", uint8_t s = 0) : salt(s), who(w), id(i), props(p) {}
  void feed(const uint8_t* d, size_t n);
  bool partial() const { return nhdr != 0; }
};
// Cuts the bytes into a chain of buffers.
// With a slack the raw buffers pretend to have some free space.
Buffer::Ptr cutBuffers(const uint8_t* d, size_t n, bool empties, bool slack);
BufferLink* cutLinks(const uint8_t* d, size_t n, bool empties, bool slack);

struct Conn;
struct World;
// Only from one thread.
void broadcast(World* w, uint32_t maxLen, bool empties);
struct World {
  mg::aio::IOCore* core = nullptr;
  const char* sslProps = "";     // Added to the properties of data failures.
  std::vector<Conn*> conns;
  uint32_t bcastSeq = 0; std::vector<void*> held;
  bool lossy = false;            // Connections can fail for no reason.
  bool chaos = false;            // Closes, shutdowns, deletions at any moment.
  bool ending = false;
  bool draining = false;
  bool reuse = false;
  bool silents = false;          // Some of the reopened are left alone.
  bool dead = false;             // The core is stopped.
  Conn* cur[MAXF] = {};          // Whose event is handled by the fiber.
  // From now on until the end of the world sends and receives of its sockets can fail.
  void failIo();
  ~World();
  // How to start the next life of a connection.
  std::function<void(Conn*)> restart;
  std::function<void(Conn*)> onConnect, onClose;
};

struct Conn : mg::aio::TCPSocketSubscription {
  Conn(World* w, int id) : w(w), id(id), rx("socket", id) { memset(cell, 0, sizeof(cell)); }
  ~Conn() override { Atomic a; payloadForget(cell, sizeof(cell)); }

  World* w; int id;
  mg::aio::TCPSocketIFace* sock = nullptr;
  bool deleted = false;           // Delete() is called or going to.
  // Life.
  bool posted = false, connected = false, closed = false;
  int lives = 0;
  std::vector<bool> quietEnds;    // The lives which were connected and closed with no error and not by us.
  bool isTask = false, connectCalled = false; bool wantConnect = false;
  bool closeAsked = false, shutAsked = false, shutCounts = false; uint64_t onSendAtShut = 0;
  bool failExpected = false;      // The peer or the address are going to break it.
  bool neverConnect = false;      // It must not become connected.
  int errors = 0, connErrors = 0; uint32_t lastError = 0, connError = 0;
  uint64_t postMs = 0, connectMs = 0, errorMs = 0, closeMs = 0, minConnectMs = 0;
  bool inCb = false; const char* cbName = "";
  uint64_t lastCbEnd = 0; int active = 0; bool lateUse = false;
  bool blocked = true;            // The threads must not touch it.
  uint64_t wakeInv = 0, evStart = 0; int evs = 0;
  uint64_t deadline = UINT64_MAX; bool rescheduled = false;
  // Data.
  uint8_t saltOut = 0;
  Parser rx;
  uint32_t seq[POSTERS] = {};
  uint64_t postedBytes = 0, onSendBytes = 0; int activeSends = 0;
  uint64_t recvCalls = 0, recvCbs = 0; uint64_t leftover = 0;
  bool paused = true;
  std::vector<void*> held;        // Data sent by reference.
  std::vector<void*> heldOld;
  int budget = 0;                 // Actions in callbacks.
  uint32_t maxLen = 600, minLen = 0;
  bool empties = false;
  std::string endpoint; uint32_t delayMs = 0; int family = 0;
  std::function<mg::aio::TCPSocketConnectParams()> params;   // Instead of the above.
  int fd = -1;                    // Of a wrapped socket.
  uint64_t file = 0, failFile = 0; int sendErrors = 0, recvErrors = 0; // Of which the failed operations are.
  uint64_t cell[2];
  bool closeOnError = false;
  bool restarting = false;
  // Over SSL.
  bool ssl = false;               // Errors of the handshake can come before OnConnect.
  bool quiet = false;             // Waits for the encryption, nobody touches it.
  bool direct = false;            // Only the in-worker sends.
  bool silent = false;            // Reopened and left alone: nothing is expected from it until it is asked.
  uint64_t rxLimit = UINT64_MAX;  // Not more can be received.
  std::function<void(Conn*)> afterRecv;

  // Before a life.
  void reset();
  uint64_t delivered() const { return rx.total + leftover; }
  bool enter() { Atomic a; if (deleted || blocked || quiet || silent || !sock) return false; ++active; return true; }
  void leave() {
    // Whatever was done before the socket became closed must not get into its next life. What was done during
    // the close is left to the user to care about.
    bool late = w->reuse && sock->IsClosed();
    Atomic a;
    --active;
    if (late) lateUse = true;
  }
  void sendFrame(int poster, bool inCallback);
  void sendBytes(const uint8_t* d, size_t n, bool inCallback);
  void recv(bool inCallback);
  void wakeup() { { Atomic a; wakeInv = stepNo(); } sock->PostWakeup(); }
  void close(int poster, bool inCallback);
  void shutdown();
  void randomAction(int poster, bool inCallback);
  void del();                     // Only when nobody else touches it.
  void freeHeld();

  struct Cb { Conn* c; Cb(Conn* c, const char* name); ~Cb(); };
  void OnConnect() override;
  void OnConnectError(mg::box::Error* e) override;
  void OnRecv(mg::net::BufferReadStream& s) override;
  void OnRecvError(mg::box::Error* e) override;
  void OnSend(uint32_t n) override;
  void OnSendError(mg::box::Error* e) override;
  void OnError(mg::box::Error* e) override;
  void OnClose() override;
  void OnEvent() override;
  void checkErr(mg::box::Error* e, const char* what);
  void checkFails();
  int expectOnError = 0;
  const char* state();
};

// Leaks of heap blocks and of pooled buffers.
// The resolver has a never ending thread with its own memory.
void warmResolver();
// Wait until it is done with everything asked before.
void flushResolver();
void checkLeaks(uint64_t mark, const char* props);

// A raw connection of the simulated network with a script.
struct Peer {
  Peer(int id, uint8_t saltIn, uint8_t saltOut) : id(id), rx("peer", id, "C19", saltIn), saltOut(saltOut) {}
  int id; Parser rx; uint8_t saltOut; size_t life = 0;
  int fd = -1;
  uint64_t sent = 0; uint32_t seq = 0, frames = 0, maxLen = 600;
  int plan = 0; uint64_t planAt = 0;
  bool eof = false, err = false, done = false, finSent = false, allSent = false, closedByUs = false;
  void run(World* w);            // Until the connection ends.
};
enum { PEER_PASSIVE, PEER_FIN, PEER_CLOSE, PEER_RESET, PEER_STALL, PEER_PLANS };
}
