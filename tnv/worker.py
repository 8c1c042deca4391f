"""Worker process: runs a share of a check's cases and writes a report."""
import importlib
import json
import os
import sys
import time
import warnings


def watch_lines(repo):
  """Records every line of the code under test that a workload executes (each
  location reports once, so the instrumentation costs next to nothing)."""
  mon = sys.monitoring
  hit = {}
  root = repo + os.sep

  def line(code, lineno):
    fn = code.co_filename
    if fn.startswith(root):
      hit.setdefault(fn[len(root):], set()).add(lineno)
    return mon.DISABLE

  mon.use_tool_id(mon.COVERAGE_ID, "tnv")
  mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
  mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
  return hit


def main():
  prop, tier, seed, widx, nw, out = sys.argv[1:7]
  only = sys.argv[7] if len(sys.argv) > 7 else None
  seed, widx, nw = int(seed), int(widx), int(nw)
  warnings.simplefilter("ignore")
  t0 = time.time()
  repo = os.path.realpath(os.environ.get("TNV_REPO", "/repo"))
  import tensornetwork  # pylint: disable=import-outside-toplevel
  assert os.path.realpath(tensornetwork.__file__).startswith(repo + "/"), \
      tensornetwork.__file__
  from tnv import core  # pylint: disable=import-outside-toplevel
  mod = importlib.import_module("tnv.checks." + prop.lower())
  check = mod.CHECK
  if check.setup:
    check.setup()
  lines = watch_lines(repo)
  core.limit_memory()
  stats = core.Stats()
  meta = [check.rule, list(check.required), check.assumptions]
  report = {"violations": [], "probes": {}, "done": False, "harness": []}

  def save():
    report.update(meta=meta, cases=stats.cases, events=stats.events, sigs=stats.sigs,
                  samples=stats.samples, per_group=stats.per_group,
                  wall=time.time() - t0)
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
      json.dump(report, f)
    os.replace(tmp, out)

  timing = {}
  k = 0
  stop = False
  enough = int(os.environ.get("TNV_STOP", "3"))
  if only:
    gname, idx = only.rsplit(":", 1)
    for g in check.groups:
      if g.name == gname:
        v = core.run_case(check, g, int(idx), seed, tier, stats)
        if v:
          report["violations"].append(v)
    for pname, probe in check.probes.items():
      if pname == gname:
        report["probes"][pname] = bool(probe())
  else:
    if widx == 0:
      for pname, probe in check.probes.items():
        report["probes"][pname] = bool(probe())
    for g in check.groups:
      tg = time.time()
      for i in range(g.counts[tier]):
        k += 1
        if k % nw != widx:
          continue
        v = core.run_case(check, g, i, seed, tier, stats)
        if v:
          (report["violations"] if v["kind"] == "violation" else
           report["harness"]).append(v)
          if len(report["violations"]) >= enough or report["harness"]:
            stop = True
            break
      timing[g.name] = round(time.time() - tg, 2)
      if stop:
        break
  report["timing"] = timing
  report["lines"] = {f: sorted(v) for f, v in lines.items()}
  report["done"] = True
  save()
  sys.stdout.flush()
  os._exit(0)  # TF/JAX threads must not delay or fail the exit


if __name__ == "__main__":
  main()
