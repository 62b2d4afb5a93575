// TLS endpoints of the simulation: contexts, their model and deterministic randomness.
#pragma once
#include "rt.h"
#include "mg/net/SSLContext.h"
namespace sim {
// All the randomness of OpenSSL in this run.
void sslSeed(uint64_t seed);
// To have all the global memory of up to so many threads allocated before the leak checks.
void sslWarmThreads(uint32_t n);
// The per-thread data of OpenSSL is freed.
void sslThreadEnd();

enum { CERT_1, CERT_2, CERT_31, CERT_32, CERT_33_EXPIRED, CERT_COUNT, CERT_CA3 = CERT_COUNT, CERT_NONE = 99 };
// What is known about a context from the way how it was created.
struct SslModel {
  mg::net::SSLContext::Ptr ctx;
  bool server = false;
  int cert = CERT_NONE;
  int trust = -1;                // Not set explicitly.
  uint32_t roots = 0;            // Bits of the trusted certificates.
  int minV = 0, maxV = 0;        // 12, 13.
  uint32_t c12 = 0, c13 = 0;     // Bits of the ciphers.
  void make(bool isServer);
  void addCert(int id);
  void addRoot(int id);
  void addCipher(int c);         // 0, 1 - of TLS 1.2, 2, 3, 4 - of TLS 1.3.
  void setMin(int v);
  void setMax(int v);
  void setTrust(int t);
  // Would this one accept the certificate of the peer?
  bool trusts(const SslModel& peer) const;
  bool unclear(const SslModel& peer) const;
  bool wantsCert() const { return trust >= 0 && trust != mg::net::SSL_TRUST_BYPASS_VERIFICATION; }
};
// The version of a successful handshake or 0.
int sslAgree(const SslModel& client, const SslModel& server);
// Random settings. Usually compatible.
void sslRandomPair(SslModel& client, SslModel& server, bool& outOk);
}
