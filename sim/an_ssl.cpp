#include "an_ssl.h"
#include "ssl_certs.h"
#include "mg/net/SSLOpenSSL.h"
#include "mg/net/SSLStream.h"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/rand.h>
#include <openssl/err.h>
#include <openssl/crypto.h>
#include <cstdio>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
#include <vector>

namespace sim {
using mg::net::SSLContext; using mg::net::SSLStream; using mg::net::Buffer;

static uint64_t g_rnd = 1;
static int rndBytes(unsigned char* b, int n) {
  for (int i = 0; i < n; ++i) {
    g_rnd ^= g_rnd << 13; g_rnd ^= g_rnd >> 7; g_rnd ^= g_rnd << 17;
    b[i] = (unsigned char)(g_rnd >> 24);
  }
  return 1;
}
static int rndStatus() { return 1; }
static int rndSeed(const void*, int) { return 1; }
static int rndAdd(const void*, int, double) { return 1; }
static RAND_METHOD g_rndMethod = {rndSeed, rndBytes, nullptr, rndAdd, rndBytes, rndStatus};
static bool g_warm;
void sslSeed(uint64_t seed) {
  if (!g_warm) { mg::net::OpenSSLInit(); RAND_set_rand_method(&g_rndMethod); }
  g_rnd = (seed + 1) * 0x9e3779b97f4a7c15ull; if (!g_rnd) g_rnd = 1;
}
// The global list of the threads grows and never shrinks.
void sslWarmThreads(uint32_t n) {
  // All at once: each one lives until the next one ends.
  if (n > 0) join(spawn("warm", [n] { ERR_clear_error(); sslWarmThreads(n - 1); }));
}
void sslThreadEnd() { OPENSSL_thread_stop(); }

struct CertDef { const uint8_t* cert; uint32_t certSize; const uint8_t* key; uint32_t keySize; };
static const CertDef theCerts[] = {
  {sslCert1, sizeof(sslCert1), sslKey1, sizeof(sslKey1)},
  {sslCert2, sizeof(sslCert2), sslKey2, sizeof(sslKey2)},
  {sslCert31, sizeof(sslCert31), sslKey3, sizeof(sslKey3)},
  {sslCert32, sizeof(sslCert32), sslKey3, sizeof(sslKey3)},
  {sslCert33Expired, sizeof(sslCert33Expired), sslKey3, sizeof(sslKey3)},
  {sslCACert3, sizeof(sslCACert3), nullptr, 0},
};
void SslModel::make(bool isServer) { server = isServer; ctx = SSLContext::NewShared(isServer); }
void SslModel::addCert(int id) {
  const CertDef& d = theCerts[id];
  if (!ctx->AddLocalCert(d.cert, d.certSize, d.key, d.keySize)) violation("C27 C23", "config", "a valid certificate with its key is not loaded");
  cert = id;
}
void SslModel::addRoot(int id) {
  const CertDef& d = theCerts[id];
  if (!ctx->AddRemoteCert(d.cert, d.certSize)) violation("C27 C23", "config", "a valid root certificate is not loaded");
  roots |= 1u << id;
}
void SslModel::addCipher(int c) {
  static const mg::net::SSLCipher all[] = {mg::net::SSL_CIPHER_ECDHE_ECDSA_AES128_GCM_SHA256, mg::net::SSL_CIPHER_ECDHE_ECDSA_AES256_GCM_SHA384,
    mg::net::SSL_CIPHER_TLS_AES_128_GCM_SHA256, mg::net::SSL_CIPHER_TLS_AES_256_GCM_SHA384, mg::net::SSL_CIPHER_TLS_CHACHA20_POLY1305_SHA256};
  SIM_CHECK(ctx->AddCipher(all[c]), "C27 C23", "config", "a cipher can't be added");
  if (c < 2) c12 |= 1u << c; else c13 |= 1u << (c - 2);
}
static mg::net::SSLVersion toVersion(int v) { return v == 12 ? mg::net::SSL_VERSION_TLSv1_2 : v == 13 ? mg::net::SSL_VERSION_TLSv1_3 : mg::net::SSL_VERSION_ANY; }
void SslModel::setMin(int v) {
  SIM_CHECK(ctx->SetMinVersion(toVersion(v)), "C27 C23", "config", "a version can't be set");
  minV = v ? v : 10;
  if (maxV && maxV < minV) maxV = minV;
}
void SslModel::setMax(int v) {
  SIM_CHECK(ctx->SetMaxVersion(toVersion(v)), "C27 C23", "config", "a version can't be set");
  maxV = v ? v : 13;
  if (minV && minV > maxV) minV = maxV;
}
void SslModel::setTrust(int t) {
  SIM_CHECK(ctx->SetTrust((mg::net::SSLTrust)t), "C27 C23", "config", "the trust can't be set");
  trust = t;
}
bool SslModel::unclear(const SslModel& peer) const {
  return (trust == mg::net::SSL_TRUST_UNSECURE || trust == mg::net::SSL_TRUST_RELAXED) && peer.cert != CERT_NONE && !trusts(peer) && peer.cert >= CERT_31;
}
bool SslModel::trusts(const SslModel& peer) const {
  if (!wantsCert()) return true;
  if (peer.cert == CERT_NONE) return false;
  if (peer.cert == CERT_1 || peer.cert == CERT_2) return (roots >> peer.cert & 1) != 0;
  if (peer.cert == CERT_33_EXPIRED) return false;
  return (roots >> CERT_CA3 & 1) != 0;
}
int sslAgree(const SslModel& c, const SslModel& s) {
  int cMax = c.maxV ? c.maxV : 13, sMax = s.maxV ? s.maxV : 13;
  int v = cMax < sMax ? cMax : sMax;
  if (v < c.minV || v < s.minV) return 0;
  uint32_t a = v == 12 ? (c.c12 ? c.c12 : 3) : (c.c13 ? c.c13 : 7);
  uint32_t b = v == 12 ? (s.c12 ? s.c12 : 3) : (s.c13 ? s.c13 : 7);
  if (!(a & b)) return 0;
  if (s.cert == CERT_NONE) return 0;
  if (!c.trusts(s)) return 0;
  if (!s.trusts(c)) return 0;
  return v;
}
void sslRandomPair(SslModel& c, SslModel& s, bool& outOk) {
  c.make(false); s.make(true);
  bool wild = choose(K_CFG, 3) == 0;
  s.addCert((int)choose(K_CFG, wild ? CERT_COUNT : CERT_33_EXPIRED));
  static const int cTrust[] = {mg::net::SSL_TRUST_STRICT, mg::net::SSL_TRUST_RELAXED, mg::net::SSL_TRUST_UNSECURE, mg::net::SSL_TRUST_BYPASS_VERIFICATION, -1};
  c.setTrust(mg::net::SSL_TRUST_STRICT);
  c.setTrust(cTrust[choose(K_CFG, 4)]);
  auto rootFor = [](int cert) { return cert >= CERT_31 ? (int)CERT_CA3 : cert; };
  if (wild) { if (choose(K_CFG, 2)) c.addRoot((int)(choose(K_CFG, 2) ? rootFor(s.cert) : (int)choose(K_CFG, 2))); if (choose(K_CFG, 4) == 0) c.addRoot(CERT_CA3); }
  else c.addRoot(rootFor(s.cert));
  if (choose(K_CFG, 4) == 3) {
    // Mutual.
    s.setTrust(cTrust[choose(K_CFG, 3)]);
    if (!wild || choose(K_CFG, 3)) c.addCert((int)choose(K_CFG, wild ? CERT_COUNT : CERT_33_EXPIRED));
    if (!wild || choose(K_CFG, 3)) s.addRoot(c.cert == CERT_NONE ? (int)CERT_CA3 : rootFor(c.cert));
  }
  for (SslModel* m : {&c, &s}) {
    uint32_t n = choose(K_CFG, 3);
    static const int vs[] = {0, 12, 13};
    for (uint32_t i = 0; i < n; ++i) {
      int v = vs[choose(K_CFG, 3)];
      if (choose(K_CFG, 2)) m->setMax(v);
      else m->setMin(v == 13 && !wild ? 12 : v);
    }
    n = choose(K_CFG, wild ? 3 : 2) == 0 ? 0 : choose(K_CFG, 5);
    for (uint32_t i = 0; i < n; ++i) m->addCipher((int)choose(K_CFG, 5));
  }
  if (!wild && sslAgree(c, s) == 0) {
    // Make them agree.
    c.minV = c.maxV = s.minV = s.maxV = 0;
    SslModel* ms[2] = {&c, &s};
    for (SslModel* m : ms) { m->setMin(12); m->setMax(13); for (int i = 0; i < 5; ++i) m->addCipher(i); }
  }
  // How much is accepted by the relaxed modes is not documented exactly.
  if (c.unclear(s)) c.setTrust(choose(K_CFG, 2) ? mg::net::SSL_TRUST_BYPASS_VERIFICATION : mg::net::SSL_TRUST_STRICT);
  if (s.unclear(c)) s.setTrust(choose(K_CFG, 2) ? mg::net::SSL_TRUST_BYPASS_VERIFICATION : mg::net::SSL_TRUST_STRICT);
  outOk = sslAgree(c, s) != 0;
  for (SslModel* m : {&c, &s}) traceOp("%s context: cert %d, trust %d, roots %x, versions %d-%d, ciphers %x %x", m->server ? "server" : "client", m->cert, m->trust, m->roots, m->minV, m->maxV, m->c12, m->c13);
}

// Everything lazy in the library is created before the runs, they are its copies then.
static bool pump(SSLStream& a, SSLStream& b) {
  Buffer::Ptr h;
  bool moved = false;
  if (a.PopNetOutput(h) > 0) { b.AppendNetInputRef(std::move(h)); moved = true; }
  h.Clear();
  if (b.PopNetOutput(h) > 0) { a.AppendNetInputRef(std::move(h)); moved = true; }
  return moved;
}
// The code under test may be broken so much that even this fails. Then it must fail in the runs.
template <typename F> static bool tryInChild(F f) {
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    alarm(30);
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
    f(); _exit(0);
  }
  int st = 0;
  return pid > 0 && waitpid(pid, &st, 0) == pid && WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static void warmStart() {
  mg::net::OpenSSLInit();
  RAND_set_rand_method(&g_rndMethod);
}
static void warmEngines() {
  for (int v : {12, 13}) for (int cipher = 0; cipher < 5; ++cipher) for (int how = 0; how < 4; ++how) {
    SslModel c, s;
    c.make(false); s.make(true);
    c.setTrust(how == 1 ? mg::net::SSL_TRUST_UNSECURE : how == 2 ? mg::net::SSL_TRUST_RELAXED : mg::net::SSL_TRUST_STRICT);
    int cert = (cipher + how) % CERT_COUNT;
    s.addCert(cert);
    if (how != 3) c.addRoot(cert >= CERT_31 ? (int)CERT_CA3 : cert);
    c.setMin(v); c.setMax(v); s.setMax(v);
    c.addCipher(cipher); s.addCipher(cipher);
    if (how == 2) { s.setTrust(mg::net::SSL_TRUST_STRICT); c.addCert(CERT_31); s.addRoot(CERT_CA3); }
    SSLStream a(c.ctx), b(s.ctx);
    a.SetHostName("warm.up");
    a.Connect(); b.Connect();
    a.AppendAppInputCopy("abc", 3);
    while (pump(a, b)) {}
    if (b.IsConnected()) b.GetHostName();
    if (how == 0) { b.AppendNetInputCopy("0123456789012345678901234567890123456789", 40); }
    Buffer::Ptr h;
    b.PopAppOutput(h); h.Clear();
    while (pump(a, b)) {}
    if (b.IsConnected()) b.Shutdown();
    a.PopAppOutput(h);
    while (pump(a, b)) {}
    if (a.HasError()) mg::net::ErrorRaiseSSL(a.GetError());
  }
}
void preInit() {
  if (!tryInChild(warmStart)) return;
  warmStart();
  g_warm = true;
  if (tryInChild(warmEngines)) warmEngines();
}
}
