#!/usr/bin/env python3
"""Checks of the properties by deterministic simulation.

  run.py setup                      build everything
  run.py check PROP [--tier T]      explore, exit 0/1 (anything else: the check is broken)
  run.py replay FILE [--trace]      reproduce a replay file
  run.py selftest [--seconds N]     determinism proof over all the workloads
  run.py explore ...                pass-through to one variant: run.py explore VARIANT args
"""
import tempfile
import sys, os, subprocess, json, hashlib, glob, time, argparse, shutil, struct, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
JOBS = int(os.environ.get("SIM_JOBS", "8"))
EDGE_BYTES = 65536 // 8

CXX_REPO = ("clang++ -std=c++20 -O1 -g1 -fno-omit-frame-pointer -fsanitize=thread -femulated-tls "
  "-fno-stack-protector -fno-pie -mllvm -tsan-instrument-func-entry-exit=0 -pthread -Wno-everything").split()
CXX_RT = "g++ -std=c++20 -O2 -g1 -fno-pie -w".split()

VARIANTS = {
  # name: (module globs, extra flags, workload prefixes, runtime files, libraries)
  "core": (["box", "sch"], [], ["wc_"], ["rt.cpp", "main.cpp", "stubs.cpp"], []),
  "epoll": (["box", "sch", "net", "sio", "aio"], [], ["wn_"], ["rt.cpp", "main.cpp", "stubs.cpp", "knet.cpp"],
    ["-lssl", "-lcrypto"]),
  "uring": (["box", "sch", "net", "sio", "aio"], ["-DMG_IOCORE_USE_IOURING=1"], ["wn_"],
    ["rt.cpp", "main.cpp", "stubs.cpp", "knet.cpp", "kuring.cpp"], ["-lssl", "-lcrypto"]),
}
# The code which isn't checked for data races: the mutex asks its owner without being locked, it
# is fine. The adapters are not the tested code.
NORACE = re.compile(r"mg/box/(Mutex|ConditionVariable)\.cpp|sim/an_")
# This code relies on relaxed changes of the task status deliberately. It is checked as if all
# the atomic operations were acquire-release.
RELAXED = re.compile(r"mg/(sch/|aio/IO(Core|Task))")
SKIP = re.compile(r"(_Win|_Apple|_kqueue|_IOCP|_Win32|_WinAPI)\.cpp$")

# Which properties are checked by which variants, with the share of the processes.
PROPS = {}
def props_of(names, spec):
  for n in names.split(): PROPS[n] = spec
props_of("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C28", {"core": 8})
props_of("C17 C18 C19 C20 C21 C22 C23 C24", {"epoll": 5, "uring": 3})
props_of("C25 C26 C27", {"epoll": 8})
props_of("C29", {"core": 3, "epoll": 4, "uring": 1})
props_of("C30", {"core": 3, "epoll": 3, "uring": 2})

def log(*a):
  print(*a, file=sys.stderr, flush=True)

def repo_sources(variant):
  mods, flags, _, _, _ = VARIANTS[variant]
  out = []
  for m in mods:
    for f in sorted(glob.glob(os.path.join(SRC, "mg", m, "*.cpp"))):
      b = os.path.basename(f)
      if SKIP.search(b): continue
      if variant == "uring" and b.endswith("_epoll.cpp"): continue
      if variant == "epoll" and b.endswith("_iouring.cpp"): continue
      out.append(f)
  return out

def tree_hash(dirs):
  h = hashlib.sha256()
  for d in dirs:
    for root, ds, fs in os.walk(d):
      ds.sort()
      for f in sorted(fs):
        if f.endswith((".h", ".hpp", ".inl")):
          p = os.path.join(root, f)
          h.update(p.encode()); h.update(open(p, "rb").read())
  return h.hexdigest()

def build(variants, hooks=True):
  # The network variants exist once their runtime does.
  variants = [v for v in variants if all(os.path.exists(os.path.join(HERE, "sim", f)) for f in VARIANTS[v][3])]
  os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
  hh = tree_hash([SRC, os.path.join(HERE, "sim")])
  jobs, links = {}, []
  def obj(cmd, src):
    key = hashlib.sha256((" ".join(cmd) + src + hh).encode() + open(src, "rb").read()).hexdigest()[:24]
    o = os.path.join(BUILD, "obj", os.path.basename(src).replace(".", "_") + "-" + key + ".o")
    if not os.path.exists(o): jobs[o] = cmd + ["-I" + SRC, "-I" + os.path.join(HERE, "sim"), "-c", src, "-o"]
    return o
  S = os.path.join(HERE, "sim")
  for v in variants:
    mods, flags, wl, rt, libs = VARIANTS[v]
    hook = ["-include", os.path.join(S, "simhook.h")] if v != "core" and hooks else []
    def fl(src):
      return (flags + hook if "/aio/" in src or os.path.dirname(src) == S else [])
    objs = [obj(["gcc"], os.path.join(S, "text_begin.S"))]
    # Thin adapters which instantiate the header-only templates belong to the tested code.
    # The others mirror the prefix: ac_ - core, an_ - network.
    srcs = repo_sources(v) + [f for p in wl for f in sorted(glob.glob(os.path.join(S, "a" + p[1:] + "*.cpp")))]
    order = lambda f: 0 if NORACE.search(f) else 1 if RELAXED.search(f) else 2
    for i, mark in enumerate([None, "text_race.S", "text_strict.S"]):
      if mark: objs += [obj(["gcc"], os.path.join(S, mark))]
      objs += [obj(CXX_REPO + fl(f), f) for f in srcs if order(f) == i]
    objs += [obj(["gcc"], os.path.join(S, "text_end.S"))]
    objs += [obj(CXX_REPO + fl(f), f) for p in wl for f in sorted(glob.glob(os.path.join(S, p + "*.cpp")))]
    objs += [obj(CXX_RT + fl(f), f) for f in [os.path.join(S, x) for x in rt]]
    key = hashlib.sha256(" ".join(objs + libs).encode()).hexdigest()[:16]
    links.append((v, os.path.join(BUILD, "sim-%s-%s" % (v, key)), objs, libs))
  t0 = time.time()
  def run(item):
    o, cmd = item
    tmp = "%s.tmp%d" % (o, os.getpid())
    r = subprocess.run(cmd + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0: os.rename(tmp, o)
    return r.returncode, " ".join(cmd), r.stdout
  # The slowest first.
  fallback = False
  items = sorted(jobs.items(), key=lambda i: -os.path.getsize(i[1][-2]) if os.path.exists(i[1][-2]) else 0)
  with ThreadPoolExecutor(JOBS) as ex:
    for rc, cmd, out in ex.map(run, items):
      if rc != 0 and hooks and "simhook.h" in cmd:
        # The batches are used as constants? Go without the hook then.
        log("no hooks:", out[:1000])
        fallback = True
      elif rc != 0:
        log("build failed:", cmd, "\n", out[:6000]); sys.exit(2)
  if fallback: return build(variants, False)
  res = {}
  def link(l):
    v, exe, objs, libs = l
    if os.path.exists(exe): os.utime(exe); return v, exe, 0, ""
    tmp = "%s.tmp%d" % (exe, os.getpid())
    r = subprocess.run(["g++", "-no-pie", "-rdynamic", "-o", tmp] + objs + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0: os.rename(tmp, exe)
    return v, exe, r.returncode, r.stdout
  with ThreadPoolExecutor(4) as ex:
    for v, exe, rc, out in ex.map(link, links):
      if rc != 0: log("link failed", out[:6000]); sys.exit(2)
      res[v] = exe
  if items: log("built %d objects in %.1f s" % (len(items), time.time() - t0))
  return res

def symbolize(exe, text):
  pcs = sorted(set(re.findall(r"pc[ =](0x[0-9a-f]+)|allocated at (0x[0-9a-f]+)|from (0x[0-9a-f]+)", text)))
  pcs = sorted({x for t in pcs for x in t if x})
  if not pcs: return ""
  try:
    out = subprocess.run(["addr2line", "-Cfpse", exe] + pcs, stdout=subprocess.PIPE, text=True, timeout=60).stdout.splitlines()
  except Exception: return ""
  return "\n".join("  %s %s" % (p, o) for p, o in zip(pcs, out))

def load_known():
  """known-findings.txt: 'known: property=<id> workload=<w> class=<c> <text>' and 'fixed: ...'"""
  res = []
  p = os.path.join(HERE, "known-findings.txt")
  if os.path.exists(p):
    for l in open(p):
      m = re.match(r"known: property=(\S+) workload=(\S+) class=(\S+) (.*)", l.strip())
      if m: res.append(m.groups())
  return res

def sim_env():
  e = dict(os.environ)
  e["LC_ALL"] = "C"
  return e

def check(prop, tier, seconds):
  t0 = time.time()
  seed = int(os.environ.get("VERIF_SEED", "1") or "1")
  spec = PROPS[prop]
  exes = build(list(spec))
  if len(exes) == 1: spec = {v: sum(spec.values()) for v in exes}
  t_build = time.time() - t0
  known = [k for k in load_known() if k[0] == prop]
  out = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
  os.makedirs(out, exist_ok=True)
  workers = [(v, i) for v, n in spec.items() for i in range(n)]
  procs = []
  try:
    for n, (v, i) in enumerate(workers):
      cmd = [exes[v], "explore", "--prop", prop, "--seed", str(seed), "--from", str(i), "--step", str(spec[v]),
        "--seconds", str(seconds), "--out", "%s/%d.json" % (out, n), "--replay", "%s/%d.replay" % (out, n),
        "--hashes", "%s/%d.bin" % (out, n)]
      if known: cmd += ["--known", ",".join("%s:%s" % (k[1], k[2]) for k in known)]
      procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=sim_env()))
    bad = None
    pending = set(range(len(procs)))
    rcs = {}
    while pending:
      for n in sorted(pending):
        r = procs[n].poll()
        if r is not None:
          rcs[n] = r; pending.discard(n)
          # One violation is enough. The others get stopped below.
          if r == 10 and bad is None: bad = n
      if bad is not None: break
      time.sleep(0.05)
    if bad is not None:
      # The lowest worker which finishes in the same moment is reported.
      for n in pending: procs[n].kill()
    outs = [p.communicate()[0] for p in procs]
    results = []
    for n in range(len(procs)):
      f = "%s/%d.json" % (out, n)
      if os.path.exists(f):
        try: results.append((n, json.load(open(f))))
        except ValueError: pass
    errs = [(n, r) for n, r in results if r["error"]]
    for n, r in errs: log("worker %d error: %s" % (n, r["error"]))
    for n, rc in rcs.items():
      if rc not in (0, 10, 11): log("worker %d exit code %d: %s" % (n, rc, outs[n][-2000:]))
    rc = 0
    viol = 0
    replay = ""
    if bad is not None:
      v = workers[bad][0]
      r = dict(results)[bad]
      vio = r["violation"]
      rep = "%s/%d.replay" % (out, bad)
      # Fresh process replay of the complete decision list.
      def rerun(path):
        r = None
        # Exactly the same in a fresh process. Only code which reads garbage memory can deviate.
        for extra in [[]] + [["--any-hash"]] * 5:
          r = subprocess.run([exes[v], "replay", path] + extra, stdout=subprocess.PIPE, text=True, env=sim_env())
          if r.returncode == 10:
            if extra: log("the replay fails the same way, but not with the same events each time")
            break
        return r
      rr = rerun(rep)
      if rr.returncode != 10:
        log("the violation %s of %s does not replay: exit %d\n%s" % (vio["class"], prop, rr.returncode, rr.stdout[-3000:]))
        return 2
      mini = rep + ".min"
      mr = subprocess.run([exes[v], "minimise", rep, mini, "--seconds", "20" if tier == "quick" else "90"],
        stdout=subprocess.PIPE, text=True, env=sim_env())
      best = mini if mr.returncode == 10 and os.path.exists(mini) else rep
      rr = rerun(best)
      if rr.returncode != 10:
        best = rep
        rr = rerun(best)
      if rr.returncode != 10:
        log("the minimised violation does not replay\n" + rr.stdout[-3000:]); return 2
      os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
      replay = os.path.join(HERE, "replays", "%s-%s-%s.replay" % (prop, v, hashlib.sha256(open(best, "rb").read()).hexdigest()[:12]))
      with open(replay, "w") as f:
        f.write("# variant %s\n" % v); f.write(open(best).read())
      print("workload %s, seed %s, class %s" % (vio["workload"], vio["seed"], vio["class"]))
      print(vio["msg"]); print(symbolize(exes[v], vio["msg"]))
      print((mr.stdout or "").strip())
      print("replayed: " + rr.stdout.strip()); print(symbolize(exes[v], rr.stdout))
      viol = 1; rc = 1
    elif errs or any(c not in (0, 10) for c in rcs.values()) or len(results) != len(procs):
      rc = 2
    knownHit = {}
    for n, r in results:
      for k, c in r["known_by"].items(): knownHit[k] = knownHit.get(k, 0) + c
    write_evidence(prop, tier, seed, spec, workers, results, out, t0, t_build, viol, knownHit)
    for p, w, c, text in known:
      print("KNOWN-FINDING: property=%s %s (%s, seen in %d runs)" % (p, text, w, knownHit.get("%s:%s" % (w, c), 0)))
    if rc == 1: print("VIOLATION property=%s replay=%s" % (prop, replay))
    elif rc == 0:
      tot = sum(r["runs"] for _, r in results)
      print("ok %s: %d runs, %.0f virtual s, build %.1f s, total %.1f s" % (prop, tot, sum(r["simtime_s"] for _, r in results), t_build, time.time() - t0))
    return rc
  finally:
    for p in procs:
      if p.poll() is None: p.kill()
    shutil.rmtree(out, ignore_errors=True)

REAL = {
  "core": "real: mg::box and mg::sch as compiled from /repo, libstdc++, libc string/format; stub: threads, mutexes, condition variables, clocks, sleeps, heap, thread-locals",
  "epoll": "real: mg::box, mg::sch, mg::net, mg::sio, mg::aio (epoll), OpenSSL; stub: threads, locks, clocks, heap, sockets, epoll, eventfd, resolver",
  "uring": "real: mg::box, mg::sch, mg::net, mg::sio, mg::aio (io_uring), OpenSSL; stub: threads, locks, clocks, heap, sockets, the io_uring kernel side, resolver",
}

def write_evidence(prop, tier, seed, spec, workers, results, out, t0, t_build, viol, known):
  wall = time.time() - t0
  tot = lambda k: sum(r[k] for _, r in results)
  faults, probes, wls, kinds, foreign = {}, {}, {}, {}, {}
  hashes, edges = set(), {}
  for n, r in results:
    for k, (a, b) in r["faults"].items():
      x = faults.setdefault(k, [0, 0]); x[0] += a; x[1] += b
    for src, dst in (("probes", probes), ("workloads", wls), ("kinds", kinds), ("foreign_by", foreign)):
      for k, c in r[src].items(): dst[k] = dst.get(k, 0) + c
    f = "%s/%d.bin" % (out, n)
    if os.path.exists(f):
      d = open(f, "rb").read()
      v = workers[n][0]
      e = edges.setdefault(v, bytearray(EDGE_BYTES))
      for i, b in enumerate(d[:EDGE_BYTES]): e[i] |= b
      for (h,) in struct.iter_unpack("<Q", d[EDGE_BYTES:]): hashes.add((v, h))
  explore = max([r["wall_s"] for _, r in results] or [0.001]) or 0.001
  runs = tot("runs")
  samples = [{"variant": workers[n][0], **r["sample"], "seed": str(r["sample"]["seed"])} for n, r in results if r["sample"]["workload"]][:4]
  ev = {
    "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": viol,
    "coverage": {
      "evaluations": runs,
      "distinct_nontrivial": len(hashes),
      "rule": "one evaluation is one simulated execution of a workload, generated from its seed; distinct by the hash of the complete event log (every scheduling point, decision, fault and kernel event); each has at least one other thread or fault by construction of the workloads",
      "samples": samples,
      "runs_per_hour": int(runs / explore * 3600), "seeds_per_hour": int(runs / explore * 3600),
      "simulated_seconds": round(tot("simtime_s"), 3), "scheduling_points": tot("steps"), "context_switches": tot("switches"),
      "distinct_executions": len(hashes),
      "distinct_switch_edges": sum(bin(b).count("1") for e in edges.values() for b in e),
      "distinct_switch_edges_measure": "pairs (code location preempted, code location resumed), hashed to 65536 buckets per variant",
      "decisions_by_kind": kinds,
      "faults_injected": {k: {"times": a, "runs": b} for k, (a, b) in sorted(faults.items())},
      "probes": dict(sorted(probes.items())),
      "workloads": wls,
      "determinism_rechecked_runs": tot("determinism_checked"), "nondeterministic_runs": tot("nondeterministic"),
      "foreign_violations": foreign,
      "known_findings_seen": known,
      "components": {v: REAL[v] for v in spec},
      "build_s": round(t_build, 2), "processes": len(workers),
    },
    "assumptions": [
      "sequentially consistent interleavings at the granularity of atomic operations, locks, system calls and sampled plain accesses of the repository's code; weak memory is covered only by happens-before tracking of the payloads",
      "the stubs behave like Linux for the calls the repository makes",
    ],
  }
  os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
  tmp = os.path.join(HERE, "evidence", ".%s.tmp%d" % (prop, os.getpid()))
  with open(tmp, "w") as f: json.dump(ev, f, indent=1)
  os.rename(tmp, os.path.join(HERE, "evidence", prop + ".json"))

def replay(path, extra):
  v = "core"
  for l in open(path):
    m = re.match(r"# variant (\S+)", l)
    if m: v = m.group(1)
  exe = build([v])[v]
  r = subprocess.run([exe, "replay", path] + extra, env=sim_env(), stdout=subprocess.PIPE, text=True)
  sys.stdout.write(r.stdout); print(symbolize(exe, r.stdout))
  return {10: 1, 0: 0}.get(r.returncode, 2)

def selftest(seconds):
  """The same seeds in different processes, at different worker counts, must give equal hashes."""
  exes = build(list(VARIANTS))
  rc = 0
  for v, exe in exes.items():
    wl = [l.split()[0] for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
    def one(w):
      res = []
      for i in range(2):
        h = os.path.join(tempfile.gettempdir(), "selftest-%d-%s-%d" % (os.getpid(), w, i))
        r = subprocess.run([exe, "explore", "--workload", w, "--prop", "*", "--seed", "99", "--count", str(int(seconds * 50)), "--det", "1", "--keep-going",
          "--hashes", h, "--out", "/dev/stdout"], stdout=subprocess.PIPE, text=True, env=sim_env())
        res.append((json.loads(r.stdout), open(h, "rb").read()))
        os.unlink(h)
      return w, res
    with ThreadPoolExecutor(JOBS) as ex:
      for w, res in ex.map(one, wl):
        r = res[0][0]
        same = res[0][1] == res[1][1]
        print("%s %-18s runs %d rechecked %d nondeterministic %d, two processes %s, violations %s %s" % (v, w, r["runs"], r["determinism_checked"], r["nondeterministic"], "agree" if same else "DIFFER", r["violations_by"], r["error"]))
        if r["nondeterministic"] or not same: rc = 1
  return rc

def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("mode"); ap.add_argument("what", nargs="?", default="")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--seconds", type=float, default=0)
  a, extra = ap.parse_known_args()
  if a.mode == "setup": build(list(VARIANTS) if not a.what else [a.what]); return 0
  if a.mode == "check":
    secs = a.seconds or (QUICK if a.tier == "quick" else 780)
    return check(a.what, a.tier, secs)
  if a.mode == "replay": return replay(a.what, extra)
  if a.mode == "selftest": return selftest(a.seconds or 20)
  if a.mode == "explore":
    exe = build([a.what])[a.what]
    if a.seconds: extra += ["--seconds", str(a.seconds)]
    os.execv(exe, [exe, "explore"] + extra)
  if a.mode == "sim":
    exe = build([a.what])[a.what]
    os.execv(exe, [exe] + extra)
  return 2
QUICK = float(os.environ.get("SIM_QUICK_SECONDS", "25"))
if __name__ == "__main__":
  sys.exit(main())
