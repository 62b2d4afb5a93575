// The driver: explores seeds, re-runs, replays and minimises.
#include "rt_int.h"
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

using namespace sim;
extern "C" int __real_clock(void);
namespace sim { void preInit(); }

static Result* R;
static double nowS() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return (double)ts.tv_sec + (double)ts.tv_nsec / 1e9; }

static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }

static void clearResult() {
  R->status = RS_NONE; R->nchoices = 0; R->probes = 0; R->cls[0] = R->msg[0] = R->props[0] = R->stage[0] = 0; R->hash = 0;
  R->steps = R->switches = R->simtime = R->allocs = 0;
  memset(R->kindCount, 0, sizeof(R->kindCount)); memset(R->faults, 0, sizeof(R->faults));
  memset(R->probeCount, 0, sizeof(R->probeCount)); memset(R->edges, 0, sizeof(R->edges));
}
static void runOne(const Workload* w, const RunConfig& cfg) {
  clearResult();
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) runChild(w, cfg, R);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (R->status == RS_NONE || !WIFEXITED(st)) {
    R->status = RS_ERROR;
    snprintf(R->cls, sizeof(R->cls), "harness-died");
    snprintf(R->msg, sizeof(R->msg), "the run's process ended with status 0x%x", st);
  }
}
static const Workload* findWorkload(const char* n) {
  for (Workload* w = g_workloads; w; w = w->next) if (strcmp(w->name, n) == 0) return w;
  return nullptr;
}
static bool wlHas(const Workload* w, const char* prop) {
  if (strcmp(prop, "*") == 0) return true;
  const char* s = strstr(w->props, prop);
  return s != nullptr;
}
struct Replay {
  std::string prop, workload, cls; uint64_t seed = 0, hash = 0; std::vector<Choice> ch;
};
static bool loadReplay(const char* path, Replay& r) {
  FILE* f = fopen(path, "r");
  if (!f) return false;
  char line[4096];
  while (fgets(line, sizeof(line), f)) {
    char a[256]; unsigned long long x; unsigned k, o, v;
    if (line[0] == '#') continue;
    if (sscanf(line, "property %250s", a) == 1) r.prop = a;
    else if (sscanf(line, "workload %250s", a) == 1) r.workload = a;
    else if (sscanf(line, "class %250s", a) == 1) r.cls = a;
    else if (sscanf(line, "seed %llu", &x) == 1) r.seed = x;
    else if (sscanf(line, "hash %llx", &x) == 1) r.hash = x;
    else if (sscanf(line, "c %250s %u %u", a, &o, &v) == 3) {
      k = K_COUNT;
      for (unsigned i = 0; i < K_COUNT; ++i) if (strcmp(a, kindName((int)i)) == 0) k = i;
      if (k == K_COUNT) { fclose(f); return false; }
      r.ch.push_back(Choice{(uint8_t)k, o, v});
    }
  }
  fclose(f);
  return !r.workload.empty();
}
static void saveReplay(const char* path, const char* prop, const char* wl, uint64_t seed) {
  FILE* f = fopen(path, "w");
  if (!f) { perror(path); exit(3); }
  fprintf(f, "simreplay 1\nproperty %s\nworkload %s\nseed %llu\nclass %s\nhash %016llx\n", prop, wl, (unsigned long long)seed, R->cls, (unsigned long long)R->hash);
  fprintf(f, "# violated: %s\n# %llu scheduling points, %.6f virtual seconds, stage '%s'\n", R->props, (unsigned long long)R->steps, (double)R->simtime / 1e9, R->stage);
  const char* m = R->msg;
  while (*m) { const char* e = strchr(m, '\n'); int n = e ? (int)(e - m) : (int)strlen(m); fprintf(f, "# %.*s\n", n, m); m += n + (e ? 1 : 0); }
  fprintf(f, "# non-default decisions: kind ordinal value\n");
  for (uint32_t i = 0; i < R->nchoices; ++i) fprintf(f, "c %s %u %u\n", kindName(R->choices[i].kind), R->choices[i].ord, R->choices[i].val);
  fclose(f);
}
static const char* arg(int argc, char** argv, const char* name, const char* def) {
  for (int i = 2; i + 1 < argc; ++i) if (strcmp(argv[i], name) == 0) return argv[i + 1];
  return def;
}
static bool flag(int argc, char** argv, const char* name) {
  for (int i = 2; i < argc; ++i) if (strcmp(argv[i], name) == 0) return true;
  return false;
}
static void jsonStr(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; ++s) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c == '\n') fputs("\\n", f); else if (c < 32) fputc(' ', f); else fputc(c, f); }
  fputc('"', f);
}
static const Workload* pickWorkload(const char* prop, const char* only, uint64_t s) {
  int total = 0;
  std::vector<const Workload*> v;
  for (Workload* w = g_workloads; w; w = w->next) {
    if (only[0] ? strcmp(w->name, only) == 0 : wlHas(w, prop)) { v.push_back(w); }
  }
  // The registration order depends on the linking, sort by the names.
  std::sort(v.begin(), v.end(), [](const Workload* a, const Workload* b) { return strcmp(a->name, b->name) < 0; });
  for (auto* w : v) total += w->weight;
  if (!total) return nullptr;
  int k = (int)(mix(s * 77 + 5) % (uint64_t)total);
  for (auto* w : v) { if (k < w->weight) return w; k -= w->weight; }
  return nullptr;
}
static uint64_t runSeed(uint64_t base, uint64_t i) { return mix(base * 1000003 + i + 17); }

static int cmdExplore(int argc, char** argv) {
  const char* prop = arg(argc, argv, "--prop", "*");
  const char* only = arg(argc, argv, "--workload", "");
  uint64_t base = strtoull(arg(argc, argv, "--seed", "1"), 0, 10);
  uint64_t from = strtoull(arg(argc, argv, "--from", "0"), 0, 10);
  uint64_t step = strtoull(arg(argc, argv, "--step", "1"), 0, 10);
  uint64_t count = strtoull(arg(argc, argv, "--count", "1000000000"), 0, 10);
  double secs = atof(arg(argc, argv, "--seconds", "1000000"));
  double detShare = atof(arg(argc, argv, "--det", "0.03"));
  const char* out = arg(argc, argv, "--out", "/dev/stdout");
  const char* rep = arg(argc, argv, "--replay", "");
  const char* hashFile = arg(argc, argv, "--hashes", "");
  const char* skip = arg(argc, argv, "--known", "");     // Known classes: "wl:cls,wl:cls".
  bool keep = flag(argc, argv, "--keep-going");
  double t0 = nowS();
  uint64_t runs = 0, steps = 0, simtime = 0, switches = 0, allocs = 0, foreign = 0, det = 0, nondet = 0, errors = 0, known = 0, viol = 0;
  uint64_t kinds[K_COUNT] = {}, faults[F_COUNT] = {}, faultRuns[F_COUNT] = {};
  static uint8_t edges[EDGE_BITS / 8];
  std::map<std::string, uint64_t> probes, wlRuns, foreignBy, knownBy, violBy;
  std::vector<uint64_t> hashes;
  std::string firstErr, violMsg, violCls, violWl, violProps; uint64_t violSeed = 0;
  uint64_t sampleSeed = 0; std::string sampleWl; uint64_t sampleSteps = 0;
  RunConfig cfg; memset(&cfg, 0, sizeof(cfg)); cfg.prop = prop;
  int rc = 0;
  for (uint64_t i = from; runs < count && nowS() - t0 < secs; i += step) {
    uint64_t s = runSeed(base, i);
    const Workload* w = pickWorkload(prop, only, s);
    if (!w) { fprintf(stderr, "no workload for %s\n", prop); return 3; }
    cfg.seed = s;
    runOne(w, cfg);
    ++runs; ++wlRuns[w->name];
    steps += R->steps; simtime += R->simtime; switches += R->switches; allocs += R->allocs;
    for (int k = 0; k < K_COUNT; ++k) kinds[k] += R->kindCount[k];
    for (int k = 0; k < F_COUNT; ++k) { faults[k] += R->faults[k]; if (R->faults[k]) ++faultRuns[k]; }
    for (uint32_t k = 0; k < R->probes; ++k) probes[R->probeName[k]] += R->probeCount[k];
    for (size_t k = 0; k < sizeof(edges); ++k) edges[k] |= R->edges[k];
    hashes.push_back(R->hash);
    if (R->status == RS_OK && R->switches > 2 && (sampleWl.empty() || R->steps < sampleSteps)) { sampleSeed = s; sampleWl = w->name; sampleSteps = R->steps; }
    if (R->status == RS_FOREIGN) { ++foreign; ++foreignBy[std::string(w->name) + ":" + R->cls + " [" + R->props + "]"]; }
    uint64_t h = R->hash; int st = R->status; std::string cls = R->cls, msg = R->msg, props = R->props;
    bool doDet = st == RS_VIOLATION || (double)(mix(s ^ 0x5eed) % 100000) / 100000.0 < detShare;
    if (st == RS_ERROR) {
      ++errors;
      if (firstErr.empty()) firstErr = std::string(w->name) + " seed " + std::to_string(s) + ": " + cls + ": " + msg;
      if (errors > 50) { rc = 11; break; }
      continue;
    }
    std::string key = std::string(w->name) + ":" + cls;
    bool isKnown = st == RS_VIOLATION && skip[0] && (std::string(",") + skip + ",").find("," + key + ",") != std::string::npos;
    if (isKnown) { ++known; ++knownBy[key]; continue; }
    if (doDet) {
      runOne(w, cfg);
      ++det;
      bool same = R->hash == h && R->status == st && cls == R->cls;
      // Code which reads garbage can behave differently each time. It must be seen failing the same way twice.
      bool again = same || (st == RS_VIOLATION && R->status == st && cls == R->cls);
      for (int k = 0; k < 4 && st == RS_VIOLATION && !again; ++k) { runOne(w, cfg); again = R->status == st && cls == R->cls; }
      if (!same) {
        ++nondet;
        if (firstErr.empty()) { char b[512]; snprintf(b, sizeof(b), " seed %llu: hash %016llx status %d %s, again %016llx status %d %s", (unsigned long long)s, (unsigned long long)h, st, cls.c_str(), (unsigned long long)R->hash, R->status, R->cls); firstErr = std::string("not deterministic: ") + w->name + b; }
        if (st != RS_VIOLATION || !again) {
          if (nondet > 30) { rc = 11; break; }
          continue;
        }
      }
    }
    if (st == RS_VIOLATION) {
      ++viol; ++violBy[key + " [" + props + "]"];
      if (violCls.empty() || !keep) { violCls = cls; violMsg = msg; violWl = w->name; violSeed = s; violProps = props; if (rep[0]) saveReplay(rep, prop, w->name, s); }
      rc = 10;
      if (!keep) break;
    }
  }
  if (nondet + errors > 0 && rc == 0) rc = 11;
  FILE* f = fopen(out, "w");
  if (!f) { perror(out); return 3; }
  uint64_t edgeCount = 0; for (uint8_t e : edges) edgeCount += (uint64_t)__builtin_popcount(e);
  std::sort(hashes.begin(), hashes.end());
  uint64_t distinct = (uint64_t)(std::unique(hashes.begin(), hashes.end()) - hashes.begin());
  fprintf(f, "{\"rc\":%d,\"runs\":%llu,\"steps\":%llu,\"simtime_s\":%.3f,\"switches\":%llu,\"allocs\":%llu,\"foreign\":%llu,\"known\":%llu,\"violations\":%llu,\"determinism_checked\":%llu,\"nondeterministic\":%llu,\"errors\":%llu,\"distinct\":%llu,\"edges\":%llu,\"wall_s\":%.2f",
    rc, (unsigned long long)runs, (unsigned long long)steps, (double)simtime / 1e9, (unsigned long long)switches, (unsigned long long)allocs, (unsigned long long)foreign, (unsigned long long)known, (unsigned long long)viol,
    (unsigned long long)det, (unsigned long long)nondet, (unsigned long long)errors, (unsigned long long)distinct, (unsigned long long)edgeCount, nowS() - t0);
  fprintf(f, ",\"kinds\":{"); for (int k = 0; k < K_COUNT; ++k) fprintf(f, "%s\"%s\":%llu", k ? "," : "", kindName(k), (unsigned long long)kinds[k]); fprintf(f, "}");
  fprintf(f, ",\"faults\":{"); { bool c = false; for (int k = 0; k < F_COUNT; ++k) if (faults[k]) { fprintf(f, "%s\"%s\":[%llu,%llu]", c ? "," : "", faultName(k), (unsigned long long)faults[k], (unsigned long long)faultRuns[k]); c = true; } } fprintf(f, "}");
  auto mp = [&](const char* n, std::map<std::string, uint64_t>& m) { fprintf(f, ",\"%s\":{", n); bool c = false; for (auto& p : m) { if (c) fputc(',', f); c = true; jsonStr(f, p.first.c_str()); fprintf(f, ":%llu", (unsigned long long)p.second); } fprintf(f, "}"); };
  mp("probes", probes); mp("workloads", wlRuns); mp("foreign_by", foreignBy); mp("known_by", knownBy); mp("violations_by", violBy);
  fprintf(f, ",\"error\":"); jsonStr(f, firstErr.c_str());
  fprintf(f, ",\"violation\":{\"class\":"); jsonStr(f, violCls.c_str()); fprintf(f, ",\"workload\":"); jsonStr(f, violWl.c_str()); fprintf(f, ",\"props\":"); jsonStr(f, violProps.c_str()); fprintf(f, ",\"seed\":%llu,\"msg\":", (unsigned long long)violSeed); jsonStr(f, violMsg.c_str()); fprintf(f, "}");
  fprintf(f, ",\"sample\":{\"workload\":"); jsonStr(f, sampleWl.c_str()); fprintf(f, ",\"seed\":%llu,\"steps\":%llu}", (unsigned long long)sampleSeed, (unsigned long long)sampleSteps);
  fprintf(f, "}\n");
  fclose(f);
  if (hashFile[0]) {
    f = fopen(hashFile, "w");
    if (f) { fwrite(edges, 1, sizeof(edges), f); fwrite(hashes.data(), 8, distinct, f); fclose(f); }
  }
  return rc;
}
static void printResult(const char* what) {
  static const char* const st[] = {"none", "ok", "violation", "foreign", "error"};
  printf("%s: %s class=%s props=[%s] hash=%016llx steps=%llu switches=%llu sim=%.6fs choices=%u stage=%s\n%s\n", what, st[R->status], R->cls, R->props,
    (unsigned long long)R->hash, (unsigned long long)R->steps, (unsigned long long)R->switches, (double)R->simtime / 1e9, R->nchoices, R->stage, R->msg);
}
static int cmdOne(int argc, char** argv) {
  const Workload* w = findWorkload(arg(argc, argv, "--workload", ""));
  if (!w) { fprintf(stderr, "no such workload\n"); return 3; }
  RunConfig cfg; memset(&cfg, 0, sizeof(cfg));
  cfg.prop = arg(argc, argv, "--prop", "*"); cfg.seed = strtoull(arg(argc, argv, "--seed", "1"), 0, 10); cfg.trace = flag(argc, argv, "--trace");
  runOne(w, cfg);
  printResult(w->name);
  const char* rep = arg(argc, argv, "--replay", "");
  if (rep[0]) saveReplay(rep, cfg.prop, w->name, cfg.seed);
  return R->status == RS_VIOLATION ? 10 : R->status == RS_ERROR ? 11 : 0;
}
// Exit 10 if the file reproduces exactly, 0 if the run is fine, 12 if it differs.
static int cmdReplay(int argc, char** argv) {
  Replay r;
  if (argc < 3 || !loadReplay(argv[2], r)) { fprintf(stderr, "can't load the replay\n"); return 3; }
  const Workload* w = findWorkload(r.workload.c_str());
  if (!w) { fprintf(stderr, "no such workload\n"); return 3; }
  RunConfig cfg; memset(&cfg, 0, sizeof(cfg));
  cfg.prop = arg(argc, argv, "--prop", r.prop.c_str()); cfg.listMode = true; cfg.list = r.ch.data(); cfg.listCount = (uint32_t)r.ch.size(); cfg.trace = flag(argc, argv, "--trace");
  runOne(w, cfg);
  printResult(w->name);
  if (R->status == RS_ERROR) return 11;
  if (R->status == RS_VIOLATION && r.cls == R->cls) return (R->hash == r.hash || flag(argc, argv, "--any-hash")) ? 10 : 12;
  return R->status == RS_OK ? 0 : 12;
}
static int cmdMinimise(int argc, char** argv) {
  Replay r;
  if (argc < 4 || !loadReplay(argv[2], r)) return 3;
  double secs = atof(arg(argc, argv, "--seconds", "20"));
  const Workload* w = findWorkload(r.workload.c_str());
  if (!w) return 3;
  double t0 = nowS();
  uint64_t tries = 0;
  std::vector<Choice> best = r.ch;
  auto attempt = [&](const std::vector<Choice>& c) {
    RunConfig cfg; memset(&cfg, 0, sizeof(cfg));
    cfg.prop = r.prop.c_str(); cfg.listMode = true; cfg.list = c.data(); cfg.listCount = (uint32_t)c.size();
    ++tries;
    runOne(w, cfg);
    return R->status == RS_VIOLATION && r.cls == R->cls;
  };
  if (!attempt(best)) { printResult("the list mode does not reproduce"); return 12; }
  // Keep what was effectively used.
  best.assign(R->choices, R->choices + R->nchoices);
  auto timeUp = [&] { return nowS() - t0 > secs; };
  // Whole kinds first.
  for (int k = 0; k < K_COUNT && !timeUp(); ++k) {
    std::vector<Choice> c;
    for (auto& x : best) if (x.kind != k) c.push_back(x);
    if (c.size() < best.size() && attempt(c)) best.assign(R->choices, R->choices + R->nchoices);
  }
  bool progress = true;
  while (progress && !timeUp()) {
    progress = false;
    // ddmin: drop chunks.
    for (size_t chunk = best.size(); chunk >= 1 && !timeUp(); chunk = chunk > 1 ? (chunk + 1) / 2 : 0) {
      for (size_t at = best.size(); at > 0 && !timeUp();) {
        size_t b = at > chunk ? at - chunk : 0;
        std::vector<Choice> c(best.begin(), best.begin() + (long)b);
        c.insert(c.end(), best.begin() + (long)at, best.end());
        if (c.size() < best.size() && attempt(c)) {
          if (R->nchoices < best.size()) { best.assign(R->choices, R->choices + R->nchoices); progress = true; }
          if (b > best.size()) b = best.size();
        }
        at = b;
      }
      if (chunk == 1) break;
    }
    // Smaller values.
    for (size_t i = 0; i < best.size() && !timeUp(); ++i) {
      if (best[i].kind == K_SCHED || best[i].val <= 1) continue;
      std::vector<Choice> c = best;
      for (uint32_t nv : {1u, best[i].val / 2, best[i].val - 1}) {
        if (nv == 0 || nv >= best[i].val) continue;
        c[i].val = nv;
        if (attempt(c) && R->nchoices <= best.size()) { best.assign(R->choices, R->choices + R->nchoices); progress = true; break; }
      }
    }
  }
  if (!attempt(best)) { printResult("minimised does not reproduce"); return 12; }
  saveReplay(argv[3], r.prop.c_str(), r.workload.c_str(), r.seed);
  printf("minimised %zu -> %u decisions in %llu runs, %llu points\n", r.ch.size(), R->nchoices, (unsigned long long)tries, (unsigned long long)R->steps);
  return 10;
}
int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  if (argc < 2) { fprintf(stderr, "usage: sim explore|one|replay|minimise|list\n"); return 3; }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  // Even a wild pointer should read the same thing in each process.
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) {
    setenv("SIM_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  rtGlobalInit();
  R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  preInit();
  std::string c = argv[1];
  if (c == "list") { for (Workload* w = g_workloads; w; w = w->next) printf("%s %d %s\n", w->name, w->weight, w->props); return 0; }
  if (c == "explore") return cmdExplore(argc, argv);
  if (c == "one") return cmdOne(argc, argv);
  if (c == "replay") return cmdReplay(argc, argv);
  if (c == "minimise") return cmdMinimise(argc, argv);
  return 3;
}
