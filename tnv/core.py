"""Core of the runtime-monitoring harness: case contexts, monitors' counters,
verdicts.  No check module talks to the file system or to stdout directly."""
import hashlib
import json
import random
import resource
import signal
import sys
import time
import traceback

import numpy as np


class Violation(Exception):
  """Raised by a monitor when an observation refutes the property."""


class Inconclusive(Exception):
  """Raised by a case that could not observe what it had to observe."""


class NoProgress(Violation):
  """A case consumed orders of magnitude more CPU time than it needs."""


def derive_seed(*parts) -> int:
  h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
  return int.from_bytes(h[:8], "big") >> 1


class Stats:
  """What the monitors of one worker actually observed."""

  def __init__(self):
    self.events = {}
    self.sigs = {}
    self.cases = 0
    self.per_group = {}
    self.samples = []

  def obs(self, name, n=1):
    self.events[name] = self.events.get(name, 0) + n


class Ctx:
  """One case: a seeded generator, a log of what was done and the monitors."""

  def __init__(self, prop, group, index, seed, tier, stats):
    self.prop = prop
    self.group = group
    self.index = index
    self.seed = derive_seed(seed, prop, group, index)
    self.tier = tier
    self.rng = np.random.default_rng(self.seed)
    self.py = random.Random(self.seed)
    self.stats = stats
    self.log = []
    self.nontrivial = False
    self._sig = []

  # ------------------------------------------------------------ generation
  def integers(self, lo, hi):
    """Uniform integer in [lo, hi] (inclusive)."""
    return int(self.rng.integers(lo, hi + 1))

  def choice(self, seq):
    seq = list(seq)
    return seq[int(self.rng.integers(0, len(seq)))]

  def flip(self, p=0.5):
    return bool(self.rng.random() < p)

  def perm(self, n):
    return [int(x) for x in self.rng.permutation(n)]

  def shuffled(self, seq):
    seq = list(seq)
    return [seq[i] for i in self.perm(len(seq))]

  def subset(self, seq, k=None):
    seq = list(seq)
    if k is None:
      k = self.integers(0, len(seq))
    return [seq[i] for i in self.perm(len(seq))[:k]]

  def array(self, shape, dtype=np.float64, scale=1.0, ints=False):
    """Random array; distinct generic values so that mix-ups are visible."""
    dtype = np.dtype(dtype)
    shape = tuple(int(s) for s in shape)
    if dtype.kind in "iu" or ints:
      lo = 0 if dtype.kind == "u" else -4
      a = self.rng.integers(lo, 5, size=shape)
    elif dtype.kind == "b":
      a = self.rng.integers(0, 2, size=shape)
    else:
      a = self.rng.normal(size=shape) * scale
      if dtype.kind == "c":
        a = a + 1j * self.rng.normal(size=shape) * scale
    if dtype.kind == "c" and ints:
      a = a + 1j * self.rng.integers(-4, 5, size=shape)
    return np.asarray(a).astype(dtype)

  # ------------------------------------------------------------ observation
  def note(self, *parts):
    self.log.append(" ".join(str(p) for p in parts)[:400])

  def sig(self, *parts):
    """Adds to the case signature by which distinct cases are counted."""
    self._sig.extend(str(p) for p in parts)

  def obs(self, name, n=1):
    self.nontrivial = True
    self.stats.obs(name, n)

  def check(self, cond, msg, *args):
    """Monitor assertion. Counts as one observation."""
    self.stats.obs("assertions")
    if not cond:
      raise Violation(msg % args if args else msg)

  def fail(self, msg):
    raise Violation(msg)

  def eq(self, got, want, what):
    self.check(got == want, "%s: got %r, expected %r" %
               (what, _short(got), _short(want)))

  def close(self, got, want, what, tol=None, shape=True):
    """Numerical comparison with a scale-aware tolerance."""
    got = np.asarray(got)
    want = np.asarray(want)
    if shape:
      self.check(tuple(got.shape) == tuple(want.shape),
                 "%s: shape %s, expected %s" % (what, got.shape, want.shape))
    self.stats.obs("assertions")
    self.stats.obs("values_compared", int(want.size))
    if tol is None:
      tol = 1e-9
      for a in (got, want):
        if a.dtype in (np.float32, np.complex64):
          tol = 2e-4
        elif a.dtype == np.float16 or str(a.dtype) == 'bfloat16':
          tol = 5e-2
    if want.size == 0:
      return
    w = want.astype(np.complex128)
    g = got.astype(np.complex128)
    if not np.all(np.isfinite(w)):
      same = np.array_equal(np.nan_to_num(g, nan=12345.), np.nan_to_num(
          w, nan=12345.))
      self.check(same, "%s: non-finite values differ" % what)
      return
    if not np.all(np.isfinite(g)):
      raise Violation("%s: result is not finite: %s, expected %s" %
                      (what, _short(got), _short(want)))
    scale = max(1.0, float(np.max(np.abs(w))))
    err = float(np.max(np.abs(g - w)))
    if err > tol * scale:
      raise Violation("%s: differs by %.3g (scale %.3g): got %s, expected %s" %
                      (what, err, scale, _short(got), _short(want)))

  def rejects(self, fn, what, excs=(Exception,)):
    """The call has to raise; returns the exception."""
    self.stats.obs("assertions")
    self.obs("rejections")
    try:
      res = fn()
    except Violation:
      raise
    except excs as e:  # pylint: disable=broad-except
      return e
    raise Violation("%s: accepted (returned %s) instead of being rejected" %
                    (what, _short(res)))


def _short(x, n=220):
  try:
    if isinstance(x, np.ndarray) and x.size > 12:
      s = "array%s %s..." % (x.shape, np.array2string(
          x.ravel()[:8], precision=4))
    else:
      s = repr(x)
  except Exception as e:  # pylint: disable=broad-except
    s = "<unprintable %s: %s>" % (type(x).__name__, e)
  return s if len(s) <= n else s[:n] + "..."


class Group:
  """A family of cases: `quick`/`thorough` give how many are run."""

  def __init__(self, name, fn, quick, thorough=None, needs=(), cpu=60.0):
    self.name = name
    self.fn = fn
    self.counts = {
        "quick": quick,
        "thorough": thorough if thorough is not None else quick * 12
    }
    self.needs = tuple(needs)
    self.cpu = cpu


class Check:
  """A property's monitors: groups of cases plus probes for known findings."""

  def __init__(self, prop, groups, rule, probes=None, required=(), setup=None,
               assumptions=(), venv="/opt/venv"):
    self.prop = prop
    self.groups = groups
    self.rule = rule
    self.probes = probes or {}
    self.required = tuple(required)
    self.setup = setup
    self.assumptions = list(assumptions)
    self.venv = venv


DATA_LIMIT = 3500 << 20


def data_bytes():
  """Data and stack segments of this process."""
  with open("/proc/self/statm") as f:
    return int(f.read().split()[5]) * 4096


def limit_memory():
  """An expansion beyond all bounds raises MemoryError in the case at hand
  instead of taking the machine down."""
  _, hard = resource.getrlimit(resource.RLIMIT_DATA)
  soft = DATA_LIMIT if hard == resource.RLIM_INFINITY else min(DATA_LIMIT, hard)
  resource.setrlimit(resource.RLIMIT_DATA, (soft, hard))


def _alarm(signum, frame):
  raise NoProgress("no progress: the case used more CPU time than its bound")


def run_case(check, group, index, seed, tier, stats):
  """Runs one case, returns None or a violation record."""
  ctx = Ctx(check.prop, group.name, index, seed, tier, stats)
  stats.cases += 1
  stats.per_group[group.name] = stats.per_group.get(group.name, 0) + 1
  verdict = None
  held = data_bytes()
  old = signal.signal(signal.SIGPROF, _alarm)
  signal.setitimer(signal.ITIMER_PROF, max(60.0, group.cpu))
  try:
    group.fn(ctx)
  except Inconclusive as e:
    stats.obs("inconclusive_cases")
    ctx.note("inconclusive", e)
  except Violation as e:
    verdict = ("violation", str(e), _tail(e))
  except MemoryError as e:
    # cases are small: only what earlier cases left behind could excuse this
    if held < DATA_LIMIT // 2:
      verdict = ("violation", "out of memory: the case used more than %d MB" %
                 ((DATA_LIMIT - held) >> 20), _tail(e))
    else:
      stats.obs("memory_exhausted_before")
  except Exception as e:  # pylint: disable=broad-except
    if type(e).__name__ == "UnimplementedError":  # TensorFlow kernel limits
      stats.obs("backend_limits")
    else:
      verdict = ("violation", "unexpected %s: %s" % (type(e).__name__,
                                                     str(e)[:600]), _tail(e))
  finally:
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.signal(signal.SIGPROF, old)
  if ctx.nontrivial:
    s = hashlib.md5(("|".join([group.name] + ctx._sig)).encode()).hexdigest()[:12]
    stats.sigs[s] = stats.sigs.get(s, 0) + 1
  if len(stats.samples) < 3 and ctx.log and index < 24:
    stats.samples.append({
        "group": group.name,
        "case": index,
        "events": ctx.log[:12]
    })
  if verdict:
    return {
        "kind": verdict[0],
        "property": check.prop,
        "group": group.name,
        "index": index,
        "seed": seed,
        "tier": tier,
        "message": verdict[1],
        "traceback": verdict[2],
        "events": ctx.log[-60:],
    }
  return None


def _tail(e):
  return "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3500:]
