#!/usr/bin/env python3
"""Mutation campaign: how well do the checks see small edits of the code?

  mutate.py WORKERS SECONDS_PER_PROP OUT.jsonl [--files REGEX] [--share F] [--seed N]

Each worker has a private copy of SIM_REPO's src under /tmp/mut and a private build directory.
Not a check: it only measures the checks and finds what they miss."""
import sys, os, re, json, random, shutil, subprocess, threading, glob, queue, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
NW = int(sys.argv[1]); SECS = float(sys.argv[2]); OUT = sys.argv[3]
def opt(n, d): return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
FILES = re.compile(opt("--files", ".")); SHARE = float(opt("--share", "1")); random.seed(int(opt("--seed", "1")))
ONLY = opt("--only", "")  # Re-run the survivors of another output.
MAP = [
 (r"aio/IO\w+_iouring", "uring", "C17 C18 C24 C19 C22"),
 (r"box/MultiConsumerQueue", "core", "C09 C01"), (r"box/MultiProducer", "core", "C10 C01"), (r"box/ForwardList", "core", "C10 C09 C01"),
 (r"box/DoublyList", "core", "C12 C15"), (r"box/BinaryHeap", "core", "C03"),
 (r"box/Signal", "core", "C11 C01"), (r"box/ConditionVariable", "core", "C13"), (r"box/InterruptibleMutex", "core", "C12"), (r"box/Mutex", "core", "C13"),
 (r"box/Thread(_Unix)?\.(cpp|h)|box/ThreadFunc", "core", "C14 C07"), (r"box/ThreadLocalPool", "core", "C15"), (r"box/(RefCount|SharedPtr)", "core", "C16"),
 (r"box/Time", "core", "C03 C13"), (r"box/Coro", "core", "C08"), (r"box/IOVec", "epoll", "C19 C26"),
 (r"sch/", "core", "C01 C07 C03 C04 C05 C08 C02 C06"),
 (r"net/Buffer", "epoll", "C27 C23 C19"), (r"net/SSL", "epoll", "C27 C23"), (r"net/DomainToIP", "epoll", "C25 C21"), (r"net/Host", "epoll", "C25 C21 C26"),
 (r"net/Socket", "epoll", "C26 C19 C24 C22"), (r"sio/", "epoll", "C26"),
 (r"aio/IO", "epoll", "C17 C18 C19 C22 C24 C21 C20"), (r"aio/TCPServer", "epoll", "C24"), (r"aio/TCPSocketCtl", "epoll", "C21 C22 C20"), (r"aio/TCPSocketIFace", "epoll", "C22 C19 C20"),
 (r"aio/TCPSocket", "epoll", "C19 C22 C20"), (r"aio/SSLSocket", "epoll", "C23"),
]
SKIP = re.compile(r"_Win|_IOCP|_kqueue|_Apple|Sysinfo|Assert|Definitions|Log\.|Error|String|Algorithm|Atomic|TypeTraits|URL")
def target(f):
  for r, v, p in MAP:
    if re.search(r, f): return v, p.split()
  return None
def strip(l): return re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "_" * (len(m.group(0)) - 2) + '"', l.split("//")[0])
def mutants(path):
  L = open(path).read().split("\n")
  depth_comment = False
  for i, raw in enumerate(L):
    l = strip(raw)
    if "/*" in l and "*/" not in l: depth_comment = True
    if depth_comment:
      if "*/" in l: depth_comment = False
      continue
    s = l.strip()
    if not s or s[0] in "#*/" or not raw.startswith("\t"): continue
    if re.search(r"MG_(DEV|BOX|SCH|AIO)?_?(DEV_)?ASSERT|MG_UNUSED|MG_LOG|^using |^static_assert|^friend |^class |^struct |^enum |^template", s): continue
    ind = raw[:len(raw) - len(raw.lstrip())]
    def m(op, new): return (i, op, new)
    prev = strip(L[i - 1]).strip() if i else ""
    cont = prev and prev[-1] not in ";{}:" and not re.match(r"(if|else|while|for|do)\b", prev) and not prev.startswith(("#", "//", "*", "/*"))
    if s.endswith(";") and not cont and s.count("(") == s.count(")") and not re.match(r"(return|break|continue|goto|case|default|public|private|protected|virtual|extern)\b", s) and not re.match(r"[\w:<>\*&, ]+[ \*&]\w+;$", s):
      yield m("del", ind + ";")
    if s in ("break;", "continue;"): yield m("flow", ind + {"break;": "continue;", "continue;": "break;"}[s])
    if re.match(r"return\b.*;$", s) and s != "return;" and False: pass
    mm = re.match(r"(\s*(?:\} )?(?:else )?(?:if|while) \()(.*)(\)( \{)?)$", l)
    if mm and not mm.group(2).startswith("true") and mm.group(2).count("(") == mm.group(2).count(")"):
      if "if (" in mm.group(1): yield m("iftrue", mm.group(1) + "true || (" + mm.group(2) + ")" + mm.group(3))
      yield m("iffalse", mm.group(1) + "false && (" + mm.group(2) + ")" + mm.group(3))
    for a, b in (("&&", "||"), ("||", "&&"), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" + ", " - "), (" - ", " + "), ("++", "--"), ("--", "++"), (" += ", " -= "), (" -= ", " += "), (" |= ", " &= "), ("return true;", "return false;"), ("return false;", "return true;"), (" = true;", " = false;"), (" = false;", " = true;")):
      p = l.find(a)
      if p >= 0 and not (a == "&&" and re.search(r"\w&& ", l)): yield m(a.strip() + "->" + b.strip(), l[:p] + b + l[p + len(a):])
jobs = []
for f in sorted(glob.glob(REPO + "/src/mg/*/*.cpp") + glob.glob(REPO + "/src/mg/*/*.h")):
  rel = os.path.relpath(f, REPO + "/src/mg")
  if SKIP.search(rel) or not FILES.search(rel) or not target(rel): continue
  for i, op, new in mutants(f): jobs.append((rel, i, op, new))
if ONLY:
  keep = {(d["file"], d["line"] - 1, d["op"]) for d in map(json.loads, open(ONLY)) if d["result"] in ("SURVIVED", "timeout", "error")}
  jobs = [j for j in jobs if (j[0], j[1], j[2]) in keep]
if SHARE < 1: jobs = [j for j in jobs if random.random() < SHARE]
done = set()
if os.path.exists(OUT):
  for l in open(OUT): d = json.loads(l); done.add((d["file"], d["line"] - 1, d["op"]))
jobs = [j for j in jobs if (j[0], j[1], j[2]) not in done]
random.shuffle(jobs)
print(len(jobs), "mutants", flush=True)
if "--count" in sys.argv: sys.exit(0)
Q = queue.Queue()
for j in jobs: Q.put(j)
lock = threading.Lock(); out = open(OUT, "a"); stat = {}
def worker(n):
  R = "/tmp/mut/%d" % n; shutil.rmtree(R + "/src", ignore_errors=True); os.makedirs(R, exist_ok=True)
  shutil.copytree(REPO + "/src", R + "/src")
  env = dict(os.environ, SIM_REPO=R, SIM_BUILD=R + "/build", SIM_JOBS="2", LC_ALL="C")
  while True:
    try: rel, i, op, new = Q.get_nowait()
    except queue.Empty: break
    p = R + "/src/mg/" + rel; orig = open(p).read(); L = orig.split("\n"); old = L[i]; L[i] = new
    v, props = target(rel)
    open(p, "w").write("\n".join(L))
    res, det, t0 = "SURVIVED", "", time.time()
    try:
      r = subprocess.run(["python3", HERE + "/run.py", "setup", v], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
      if r.returncode != 0: res = "nocompile"; det = r.stdout[-200:] if "link" in r.stdout else ""
      else:
        exe = max(glob.glob(R + "/build/sim-%s-*" % v), key=os.path.getmtime)
        for k, pr in enumerate(props):
          o = R + "/o.json"
          try: c = subprocess.run([exe, "explore", "--prop", pr, "--seed", "1", "--seconds", str(SECS), "--out", o], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=SECS + 60).returncode
          except subprocess.TimeoutExpired: res, det = "timeout", pr; break
          if c == 10: d = json.load(open(o)); res, det = "killed", "%s %s %s after %d" % (pr, d["violation"]["workload"], d["violation"]["class"], d["runs"]); break
          if c not in (0, 10):
            try: det = json.load(open(o))["error"][:300]
            except Exception: det = "rc %d" % c
            res = "error"; break
        for x in glob.glob(R + "/build/sim-*"): 
          if x != exe: os.unlink(x)
        ob = sorted(glob.glob(R + "/build/obj/*"), key=os.path.getmtime)
        for x in ob[:-400]: os.unlink(x)
    finally: open(p, "w").write(orig)
    with lock:
      out.write(json.dumps(dict(file=rel, line=i + 1, op=op, old=old.strip(), new=new.strip(), result=res, detail=det, s=round(time.time() - t0, 1))) + "\n"); out.flush()
      stat[res] = stat.get(res, 0) + 1
      if sum(stat.values()) % 50 == 0: print(stat, Q.qsize(), flush=True)
  shutil.rmtree(R, ignore_errors=True)
T = [threading.Thread(target=worker, args=(n,)) for n in range(NW)]
for t in T: t.start()
for t in T: t.join()
print(stat)
