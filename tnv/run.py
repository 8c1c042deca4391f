"""Runner: python3 -m tnv.run C01 [quick|thorough] [--replay FILE]

Spawns worker processes that execute the property's workload against the code
in /repo's working tree, merges what their monitors observed, writes
evidence/<id>.json and prints the verdict."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TNV_REPO", "/repo")
PY = "/opt/venv/bin/python"


def worker_env():
  env = dict(os.environ)
  env.update(
      PYTHONPATH=REPO + ":" + VERIF, PYTHONDONTWRITEBYTECODE="1",
      PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
      MKL_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", TF_CPP_MIN_LOG_LEVEL="3",
      TF_USE_LEGACY_KERAS="1", TF_ENABLE_ONEDNN_OPTS="0", JAX_PLATFORMS="cpu",
      TF_NUM_INTRAOP_THREADS="1", TF_NUM_INTEROP_THREADS="1",
      XLA_FLAGS="--xla_cpu_multi_thread_eigen=false "
                "intra_op_parallelism_threads=1",
      HOME="/root", TNV_REPO=REPO)
  return env


def known_findings():
  known = {}
  path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
  if os.path.exists(path):
    for line in open(path):
      m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
      if m:
        known[(m.group(1), m.group(2))] = m.group(3)
  return known


def main():
  args = sys.argv[1:]
  prop = args[0]
  tier = "quick"
  replay = None
  rest = args[1:]
  while rest:
    a = rest.pop(0)
    if a == "--replay":
      replay = rest.pop(0)
    elif a in ("quick", "thorough"):
      tier = a
  seed = int(os.environ.get("VERIF_SEED", "1"))
  only = None
  if replay:
    rec = json.load(open(replay))
    tier, seed = rec["tier"], rec["seed"]
    only = "%s:%d" % (rec["group"], rec["index"])
  t0 = time.time()
  nw = 1 if replay else int(os.environ.get("TNV_WORKERS", "8"))
  limit = float(os.environ.get("TNV_LIMIT", 840 if tier == "quick" else 7200))
  scratch = tempfile.mkdtemp(prefix="tnv_%s_" % prop)
  code = 3
  try:
    code = _run(prop, tier, seed, only, nw, limit, scratch, t0, bool(replay))
  finally:
    shutil.rmtree(scratch, ignore_errors=True)
  sys.exit(code)


def _run(prop, tier, seed, only, nw, limit, scratch, t0, replaying):
  env = worker_env()
  env["TNV_SCRATCH"] = scratch
  env["TMPDIR"] = scratch
  procs = []
  for w in range(nw):
    out = os.path.join(scratch, "w%d.json" % w)
    log = open(os.path.join(scratch, "w%d.log" % w), "w")
    cmd = [PY, "-m", "tnv.worker", prop, tier, str(seed), str(w), str(nw), out]
    if only:
      cmd.append(only)
    procs.append((subprocess.Popen(cmd, cwd=scratch, env=env, stdout=log,
                                   stderr=subprocess.STDOUT,
                                   start_new_session=True), out, log.name))
  deadline = time.time() + limit
  timed_out = False
  for p, _, _ in procs:
    try:
      p.wait(timeout=max(1.0, deadline - time.time()))
    except subprocess.TimeoutExpired:
      timed_out = True
  for p, _, _ in procs:
    if p.poll() is None:
      try:
        os.killpg(p.pid, 9)
      except ProcessLookupError:
        pass
      p.wait()
  events, sigs, samples, per_group, timing = {}, {}, [], {}, {}
  violations, harness, probes, cases, dead = [], [], {}, 0, []
  lines = {}
  meta = ["", [], []]
  for p, out, log in procs:
    if not os.path.exists(out):
      dead.append((p.returncode, open(log, errors="replace").read()[-3000:]))
      continue
    r = json.load(open(out))
    cases += r["cases"]
    meta = r["meta"]
    for k, v in r["events"].items():
      events[k] = events.get(k, 0) + v
    for k, v in r["sigs"].items():
      sigs[k] = sigs.get(k, 0) + v
    for k, v in r["per_group"].items():
      per_group[k] = per_group.get(k, 0) + v
    for k, v in r.get("timing", {}).items():
      timing[k] = max(timing.get(k, 0), v)
    samples += r["samples"]
    violations += r["violations"]
    for f, v in r.get("lines", {}).items():
      lines.setdefault(f, set()).update(v)
    harness += r["harness"]
    probes.update(r["probes"])
  rule, required, assumptions = meta
  known = known_findings()
  vlines = []
  rep_dir = os.path.join(VERIF, "evidence", "replay")
  os.makedirs(rep_dir, exist_ok=True)
  for pname, present in sorted(probes.items()):
    if not present:
      continue
    if (prop, pname) in known:
      print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, pname)]))
    else:
      violations.append({
          "kind": "violation", "property": prop, "group": pname, "index": 0,
          "seed": seed, "tier": tier, "message": "probe %s" % pname,
          "traceback": "", "events": []})
  violations.sort(key=lambda v: (v["group"], v["index"]))
  for v in violations[:8]:
    path = os.path.join(rep_dir, "%s_%s_%d_%d.json" %
                        (prop, v["group"], v["seed"], v["index"]))
    json.dump(v, open(path, "w"), indent=1)
    vlines.append("VIOLATION property=%s replay=%s" % (prop, path))
    print("  [%s:%d] %s" % (v["group"], v["index"], v["message"]))
    if replaying:
      print("\n".join(v["events"]))
      print(v["traceback"])
  wall = time.time() - t0
  missing = [r for r in required if not events.get(r)]
  if not replaying:
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": len(sigs),
            "rule": rule, "samples": samples[:10] or ["(no case logged)"],
            "events_observed": dict(sorted(events.items())),
            "cases_per_group": per_group, "seconds_per_group": timing,
            "lines_of_code_executed": {f: len(v)
                                       for f, v in sorted(lines.items())},
            "known_findings_present": sorted(k for k, v in probes.items()
                                             if v)},
        "assumptions": assumptions, "wall_s": round(wall, 2),
        "violations": len(violations)}
    if os.environ.get("TNV_LINES"):
      with open(os.path.join(os.environ["TNV_LINES"], prop + ".json"),
                "w") as f:
        json.dump({k: sorted(v) for k, v in lines.items()}, f)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"),
              indent=1)
  print("%s %s seed=%d: %d cases, %d distinct, %d assertions, %.1fs" %
        (prop, tier, seed, cases, len(sigs), events.get("assertions", 0), wall))
  if vlines:
    print("\n".join(vlines))
    return 1
  if dead:
    print("ERROR: %d worker(s) died without a report" % len(dead))
    for rc, tail in dead[:2]:
      print("rc=%s\n%s" % (rc, tail))
    return 3
  if harness:
    print("ERROR: harness: %s" % harness[0]["message"])
    return 3
  if timed_out:
    print("INCONCLUSIVE: wall-clock watchdog fired")
    return 2
  if missing and not replaying:
    print("INCONCLUSIVE: monitors never observed: %s" % missing)
    return 2
  return 0


if __name__ == "__main__":
  main()
