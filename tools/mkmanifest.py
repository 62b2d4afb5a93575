#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the list of those claimed."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {
 "C90": "purely sequential containers: no thread, clock, I/O or fault for a simulator to control; they are exercised inside every simulated run, but a random operation sequence against a model would be property-based testing, not deterministic simulation",
 "C91": "pure functions of their input text; nothing nondeterministic to simulate",
 "C92": "pure functions of their input; nothing nondeterministic to simulate",
}
CLAIMED = set((sys.argv[1] if len(sys.argv) > 1 else open(os.path.join(H, "tools/claimed")).read()).split())
TECH = "deterministic simulation with fault injection: seeded search over thread schedules and fault sequences of the real code under a simulated %s, checked by %s"
what = {}
def w(ids, env, chk):
  for i in ids.split(): what[i] = (env, chk)
w("C01 C02 C03 C04 C05 C06 C07 C08", "pthread/clock/heap layer", "history invariants, happens-before of payloads and liveness after faults stop")
w("C09 C10 C11 C12 C13 C14 C15 C16 C28", "pthread/clock/heap layer", "reference models of the primitive, happens-before of payloads and liveness after faults stop")
w("C17 C18 C19 C20 C21 C22 C23 C24", "Linux kernel (sockets, epoll, io_uring, eventfd), pthread, clock and heap layer", "stream and callback-protocol oracles, descriptor and memory accounting, and liveness after faults stop")
w("C25 C26 C27", "Linux kernel (sockets, resolver), pthread, clock and heap layer", "stream and outcome oracles, descriptor and memory accounting, and liveness after faults stop")
w("C29", "Linux kernel, pthread, clock and heap layer", "happens-before tracking of every plain memory access and free of the library")
w("C30", "Linux kernel, pthread, clock and heap layer", "a bound on the executions of other tasks between readiness and execution")
note = {}
checks, na = [], []
for p in props:
  i = p["id"]
  if i in CLAIMED:
    env, chk = what[i]
    checks.append({"property": i, "quick_cmd": "python3 run.py check %s --tier quick" % i,
      "thorough_cmd": "python3 run.py check %s --tier thorough" % i, "technique": TECH % (env, chk),
      "level": "exploration",
      "level_note": "a seeded sample of schedules, inputs and faults; absence of a violation is evidence, not proof. Sequentially consistent interleavings; the memory model is covered by happens-before tracking of payload data and of the library's own plain memory accesses."})
  else:
    na.append({"property": i, "reason": NA.get(i, "no check yet")})
hooks = {"guard": "MG_IOCORE_EPOLL_BATCH, MG_IOCORE_IOURING_BATCH, MG_IOCORE_READY_BATCH",
  "enable": "clang++ -include sim/simhook.h (by run.py), which defines the three macros as calls of the simulator; not defined, the shipped constants are used",
  "source_commits": open(os.path.join(H, "tools/hooks")).read().split()}
m = {"version": 1, "setup_cmd": "python3 run.py setup", "hooks": hooks, "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
