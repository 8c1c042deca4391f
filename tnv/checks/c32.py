"""C32: computations in concurrent threads give their serial results.

The jobs are the bodies of C24 (every kind of public computation), iterative
solvers on block-sparse operators and calls through the library's caches.
Each case runs every job alone first, then all of them in threads with
preemption forced inside the library: a tiny switch interval and a line
monitor that yields at random lines of the code under test.
"""
import random
import sys
import threading
import time
import warnings

import numpy as np
import tensornetwork as tn
import tensornetwork.block_sparse as bs
from tensornetwork import contractors
from tensornetwork.backends import backend_factory

from tnv import core, nets, sym
from tnv.checks import c24
from tnv.dense import to_np

TOOL = sys.monitoring.DEBUGGER_ID


class Silent:
  """The monitors that C24's bodies set up belong to C24."""

  def __init__(self, ctx):
    self.ctx = ctx

  def __call__(self, **objs):
    pass

  def ids(self, **lists):
    pass

  def nodes(self, nodes):
    pass


class Job:

  def __init__(self, what, make, body, tol, twin=None):
    self.what, self.make, self.body, self.tol = what, make, body, tol
    self.twin = twin or (lambda ctx: self)   # the same kind, other values

  def run(self):
    r = self.body(**self.make())
    return [np.array(x) if isinstance(x, np.ndarray) else x
            for x in c24.flat(r)]


def collect(ctx, case):
  """The inputs and the body of one C24 case, not run."""
  got = []

  def grab(_, what, inputs, body, tol=1e-9, repeat=True):
    got.append((what, inputs, body, tol))

  old = c24.run
  c24.run = grab
  try:
    case(ctx)
  finally:
    c24.run = old
  jobs = []
  for what, inputs, body, tol in got:
    plain = all(isinstance(v, np.ndarray) for v in inputs.values())
    if plain and ctx.flip(0.5):       # read-only arrays shared by all threads
      host = {k: v.copy() for k, v in inputs.items()}
      for v in host.values():
        v.setflags(write=False)
      make = lambda host=host: dict(host)
      ctx.stats.obs("shared_inputs")
    else:
      keep = {k: c24.fresh(v) for k, v in inputs.items()}
      make = lambda keep=keep: {k: c24.fresh(v) for k, v in keep.items()}
    call = lambda body=body, **kw: body(Silent(ctx), **kw)
    twin = None
    if plain:
      twice = lambda make=make: {k: v * 2 for k, v in make().items()}
      twin = lambda c, w=what, m=twice, b=call, t=tol: Job(w, m, b, t)
    jobs.append(Job(what, make, call, tol, twin))
  return jobs


CASES = [c24.case_nodes] * 4 + [c24.case_ncon] * 2 + [
    c24.case_primitives] * 2 + [c24.case_tensors, c24.case_mps, c24.case_mps,
                                c24.case_mpo, c24.case_paths]


def solver_job(ctx, g=None, q=None):
  """Iterative solvers of the symmetric backend switch the block cache."""
  g = sym.group(ctx, 2) if g is None else g
  # a neutral matrix over a leg with every charge in both ends
  if q is None:
    q = sym.rand_q(ctx, g, ctx.integers(6, 12), 1)
    q[:3] = 0
  legs = [(q, False), (q, True)]
  a = ctx.array((len(q), len(q)), np.float64)
  a = a + a.T + 4 * np.eye(len(q))
  a = np.where(sym.mask(g, legs), a, 0.0)
  z = np.zeros((1, len(g)), dtype=np.int64)
  vlegs = [(q, True), (z, False)]
  v = np.where(sym.mask(g, vlegs), ctx.array((len(q), 1)) + 2.0, 0.0)
  n = int(np.count_nonzero(sym.mask(g, vlegs)))
  kind = ctx.choice(["lanczos", "eigs", "gmres"] if n > 4 else
                    ["lanczos", "gmres"])
  cache = ctx.flip(0.8)
  charges = [sym.make_charge(ctx, g, q) for _ in range(3)] + [
      sym.make_charge(ctx, g, z)]

  def make():
    t = tn.BlockSparseTensor.fromdense(
        [bs.Index(charges[0].copy(), False), bs.Index(charges[1].copy(),
                                                      True)], a)
    x = tn.BlockSparseTensor.fromdense(
        [bs.Index(charges[2].copy(), False), bs.Index(charges[3].copy(),
                                                      True)],
        np.where(sym.mask(g, [(q, False), (z, True)]), v, 0.0))
    return {"t": t, "x": x}

  def body(t, x):
    b = backend_factory.get_backend("symmetric")
    mv = lambda y, m: b.tensordot(m, y, ([1], [0]))
    if kind == "lanczos":
      e, vec = b.eigsh_lanczos(mv, [t], initial_state=x, num_krylov_vecs=n,
                               reorthogonalize=True, enable_caching=cache)
      return [e[0], abs(float(np.vdot(vec[0].todense(), a @ vec[0].todense())))]
    if kind == "eigs":
      e, _ = b.eigs(mv, [t], initial_state=x, num_krylov_vecs=n, numeig=1,
                    which="LM", enable_caching=cache)
      return [np.abs(e)]
    y, _ = b.gmres(mv, x, A_args=[t], x0=x, tol=1e-10,
                   num_krylov_vectors=max(2, n), maxiter=5,
                   enable_caching=cache)
    return [y.todense()]

  ctx.stats.obs("solver_jobs")
  return Job("symmetric " + kind, make, body, 1e-6,
             lambda c: solver_job(c, g, q))


def sparse_job(ctx, g=None, legs=None, kind=None):
  """A contraction of block-sparse tensors large enough to be interrupted."""
  g = sym.group(ctx, 2) if g is None else g
  if legs is None:
    legs = [(sym.rand_q(ctx, g, 6, 1), ctx.flip()) for _ in range(4)]
    if ctx.flip(0.3):
      legs = [legs[0]] * 4
  t, m = sym.make(ctx, g, legs, [1] * 4, np.float64)
  p = list(ctx.perm(4))
  cs = [[c.copy() for c in cc] for cc in t.charges]
  fl = [list(f) for f in t.flows]
  d = m.todense()

  def make():
    return {"t": tn.BlockSparseTensor.fromdense(
        [bs.Index([c.copy() for c in cc], ff) for cc, ff in zip(cs, fl)], d)}

  if kind is None or ctx.flip(0.3):
    kind = ctx.choice(["tensordot", "tensordot", "wide", "wide", "svd", "qr",
                       "ncon", "reshape", "charges", "nodes", "add"])
  ax = ctx.subset(range(4), ctx.choice([1, 3]))

  def body(t):
    u = t.transpose(p)
    if kind == "tensordot":
      r = bs.tensordot(u, u.conj(), ([1, 2], [1, 2]))
      return [r.todense(), bs.norm(u)]
    if kind == "wide":       # three legs on one side of the matrix
      r = bs.tensordot(u, t.conj(), ([p.index(a) for a in ax], ax))
      k = u.reshape((216, 6)) if len(ax) == 1 else u.reshape((6, 216))
      return [r.todense(), k.contiguous().todense(), bs.norm(k)]
    if kind == "ncon":
      return [tn.ncon([u, u.conj()], [[-1, 1, -3, 2], [-2, 1, -4, 2]],
                      backend="symmetric").todense()]
    if kind in ("svd", "qr"):
      m = u.reshape((36, 36))
      if kind == "svd":
        x, y, z = bs.svd(m, full_matrices=False)
        return [(x @ bs.diag(y) @ z).todense(), np.sort(y.data)]
      x, y = bs.qr(m)
      return [(x @ y).todense()]
    if kind == "reshape":
      v = u.reshape((36, 6, 6)).transpose([1, 0, 2]).contiguous()
      return [v.todense(), v.reshape((6, 6, 6, 6)).transpose(
          [1, 2, 0, 3], shuffle=True).todense()]
    if kind == "add":
      w = u.contiguous()
      return [(u + w * 2.0 - u.transpose([3, 2, 1, 0]).transpose([3, 2, 1, 0]) / 4.0).todense()]
    if kind == "nodes":
      n = tn.Node(u, backend="symmetric")
      o = [n[2], n[0], n[3], n[1]]
      l, r, _ = tn.split_node(n, o[:2], o[2:], max_truncation_err=0.0)
      return [tn.contract_between(l, r, output_edge_order=o).tensor.todense()]
    c = [i for cc in u.charges for i in cc]
    f = c[0] + c[1] * True + c[2].dual(True)
    q, inv, num = f.unique(return_inverse=True, return_counts=True)
    return [f.charges, q.charges, q.charges[inv], num,
            f.reduce(q.charges[:2]).charges, (f == q.charges[:1])]

  return Job("sparse " + kind, make, body, 1e-9, lambda c: sparse_job(
      c, g, c.shuffled(legs) if c.flip(0.3) else legs, kind))


def network_job(ctx, alg=None, b=None):
  """Builds, contracts and splits a network by name and by number."""
  arrs = [ctx.array((2, 3, 2)) for _ in range(3)]
  alg = alg or ctx.choice(["greedy", "optimal", "branch", "auto", "ncon"])
  b = b or ctx.choice(["numpy", "numpy", "jax"])

  def make():
    return {"arrs": [x.copy() for x in arrs]}

  def body(arrs):
    if alg == "ncon":
      return tn.ncon(arrs, [[1, -1, 2], [2, -2, 3], [3, -3, 1]], backend=b)
    ns = [tn.Node(x, axis_names=["l", "p", "r"], name="n%d" % i, backend=b)
          for i, x in enumerate(arrs)]
    for i in range(3):
      ns[i]["r"] ^ ns[(i + 1) % 3]["l"]
    out = [n["p"] for n in ns]
    r = getattr(contractors, alg)(ns, output_edge_order=out)
    l, rr, _ = tn.split_node(r, out[:1], out[1:])
    return [to_np(tn.contract_between(l, rr, output_edge_order=out).tensor)]

  return Job("network " + alg, make, body, 1e-9,
             lambda c: network_job(c, alg, b))


class Preempt:
  """Yields at random lines of the library; records where."""

  def __init__(self, seed, root, p):
    self.rng = random.Random(seed)
    self.root, self.p = root, p
    self.hits = {}
    self.points, self.switches, self.last, self.lines = set(), 0, None, 0

  def line(self, code, lineno):
    if not code.co_filename.startswith(self.root):
      return sys.monitoring.DISABLE
    me = threading.get_ident()
    self.lines += 1
    if me != self.last:
      self.switches += 1
      self.last = me
      self.points.add((code.co_filename, lineno))
    if self.rng.random() < self.p:
      time.sleep(0 if self.rng.random() < 0.9 else 1e-5)
    k = self.hits[code, lineno] = self.hits.get((code, lineno), 0) + 1
    return sys.monitoring.DISABLE if k > 100 else None   # hot loops

  def __enter__(self):
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "tnv-preempt")
    mon.register_callback(TOOL, mon.events.LINE, self.line)
    mon.set_events(TOOL, mon.events.LINE)
    mon.restart_events()
    self.interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    return self

  def __exit__(self, *exc):
    sys.setswitchinterval(self.interval)
    mon = sys.monitoring
    mon.set_events(TOOL, 0)
    mon.register_callback(TOOL, mon.events.LINE, None)
    mon.free_tool_id(TOOL)


SEEN = set()
ROOT = tn.__file__.rsplit("/", 1)[0] + "/"


def same(ctx, a, b, job):
  ctx.eq(len(a), len(b), job.what + " in a thread: number of results")
  for x, y in zip(a, b):
    if isinstance(x, (str, bytes)):
      ctx.check(x == y, "%s in a thread: different text", job.what)
      continue
    x, y = np.asarray(x), np.asarray(y)
    ctx.eq(x.dtype, y.dtype, job.what + " in a thread: dtype")
    s = max(1.0, float(np.abs(x).max())) if x.size and x.dtype.kind in "fc" \
        else 1.0
    ctx.close(y, x, job.what + " in a thread", tol=job.tol * s)
  ctx.stats.obs("results_compared")


def race(ctx, plans, p):
  status = bs.get_caching_status()
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    serial = [[j.run() for j in plan] for plan in plans]
    got = [[None] * len(plan) for plan in plans]
    errors = []
    start = threading.Barrier(len(plans))

    def work(i):
      k = 0
      try:
        start.wait(30)
        for k, j in enumerate(plans[i]):
          got[i][k] = j.run()
      except BaseException as e:  # pylint: disable=broad-except
        errors.append((plans[i][k].what, e))

    ts = [threading.Thread(target=work, args=(i,), daemon=True)
          for i in range(len(plans))]
    with Preempt(ctx.integers(0, 2**31), ROOT, p) as pre:
      for t in ts:
        t.start()
      for t in ts:
        t.join(50)
        ctx.check(not t.is_alive(), "a thread makes no progress")
  # overlapping solvers may leave the shared caching status switched
  bs.set_caching_status(status)
  if not status:
    bs.clear_cache()
  if errors:
    raise core.Violation("%s in a thread raised %s: %s" % (
        errors[0][0], type(errors[0][1]).__name__, str(errors[0][1])[:300])
    ) from errors[0][1]
  for plan, a, b in zip(plans, serial, got):
    for j, x, y in zip(plan, a, b):
      same(ctx, x, y, j)
  ctx.stats.obs("switches_in_library", pre.switches)
  ctx.stats.obs("library_lines", pre.lines)
  ctx.stats.obs("new_switch_points", len(pre.points - SEEN))
  SEEN.update(pre.points)
  ctx.obs("threaded_runs")


def pick(ctx, kinds):
  k = ctx.choice(kinds)
  return (collect(ctx, k) if k in CASES else [k(ctx)])[0]


def case_mixed(ctx):
  """Every thread has its own jobs."""
  kinds = CASES + [solver_job, sparse_job, network_job] * 3
  plans = [[pick(ctx, kinds) for _ in range(ctx.integers(2, 5))]
           for _ in range(ctx.integers(2, 4))]
  ctx.sig(*[j.what for pl in plans for j in pl])
  ctx.note([[j.what for j in pl] for pl in plans])
  race(ctx, plans, ctx.choice([0.0, 0.003, 0.01, 0.05]))


def case_same(ctx):
  """All threads run the same kind of job, on other or the same values."""
  kind = ctx.choice(CASES + [solver_job] * 3 + [sparse_job, network_job] * 2)
  n, k = ctx.integers(2, 4), ctx.integers(2, 4)
  if ctx.flip():
    jobs = [pick(ctx, [kind]) for _ in range(k)]
    plans = [ctx.shuffled(jobs) for _ in range(n)]
    ctx.stats.obs("same_jobs")
  else:
    plans = [[pick(ctx, [kind]) for _ in range(k)] for _ in range(n)]
  ctx.sig(*[j.what for pl in plans for j in pl])
  ctx.note([[j.what for j in pl] for pl in plans])
  race(ctx, plans, ctx.choice([0.0, 0.003, 0.01, 0.05]))


def case_cached(ctx):
  """Block-sparse work with the block cache on."""
  plans = [[pick(ctx, [sparse_job, sparse_job, sparse_job, solver_job])
            for _ in range(ctx.integers(2, 4))] for _ in range(3)]
  if ctx.flip():
    plans = [ctx.shuffled(plans[0]) for _ in plans]
  ctx.sig(*[j.what for pl in plans for j in pl])
  ctx.note([[j.what for j in pl] for pl in plans])
  on = ctx.flip(0.6)
  if on:
    bs.enable_caching()
  try:
    race(ctx, plans, ctx.choice([0.0, 0.003, 0.01, 0.05]))
  finally:
    bs.disable_caching()
    bs.clear_cache()
  ctx.obs("cached_runs")


class Stop:
  """Holds one thread at the nth visit of a line until `resume` is set."""

  def __init__(self, root=None, at=None):
    self.root, self.thread, self.at = root, None, at
    self.reached, self.resume = threading.Event(), threading.Event()
    self.seen = {}

  def line(self, code, lineno):
    """All lines of the library that the thread runs, with their visits."""
    if not code.co_filename.startswith(self.root):
      return sys.monitoring.DISABLE
    if threading.get_ident() == self.thread:
      self.seen[code, lineno] = self.seen.get((code, lineno), 0) + 1
    return None

  def wait(self, code, lineno):
    if lineno != self.at[0][1]:
      return sys.monitoring.DISABLE
    if self.at[1] > 0 and threading.get_ident() == self.thread:
      self.at = self.at[0], self.at[1] - 1
      if not self.at[1]:
        self.reached.set()
        self.resume.wait(10)
    return None

  def __enter__(self):
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "tnv-stop")
    if self.at is None:
      mon.register_callback(TOOL, mon.events.LINE, self.line)
      mon.set_events(TOOL, mon.events.LINE)
    else:
      self.code = self.at[0][0]
      mon.register_callback(TOOL, mon.events.LINE, self.wait)
      mon.set_local_events(TOOL, self.code, mon.events.LINE)
    mon.restart_events()
    return self

  def __exit__(self, *exc):
    mon = sys.monitoring
    if self.at is not None:
      mon.set_local_events(TOOL, self.code, 0)
    mon.set_events(TOOL, 0)
    mon.register_callback(TOOL, mon.events.LINE, None)
    mon.free_tool_id(TOOL)


STOPPED = {}


def case_stop(ctx):
  """One thread stopped at a chosen line while another one runs completely."""
  a = pick(ctx, CASES + [sparse_job] * 36 + [solver_job] * 5 +
           [network_job] * 6)
  b = a.twin(ctx)
  if ctx.flip(0.15):
    b = pick(ctx, [sparse_job, solver_job, network_job])
  ctx.note([a.what, b.what])
  ctx.sig(a.what, b.what, ctx.integers(0, 10**9))
  cache = ctx.flip(0.3)
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    try:
      if cache:
        bs.enable_caching()
        ctx.stats.obs("stop_cached")
      stops(ctx, a, b)
    finally:
      bs.disable_caching()
      bs.clear_cache()


def stops(ctx, a, b):
  want, other = a.run(), b.run()
  with Stop(ROOT) as st:
    st.thread = threading.get_ident()
    a.run()
  seen = st.seen
  lines = sorted(seen, key=lambda k: (k[0].co_filename, k[1], k[0].co_name))
  ctx.check(lines, "no line of the library was run")
  for _ in range(min(40, max(8, 200000 // sum(seen.values())))):
    few = [STOPPED.get((k[0].co_filename, k[1]), 0) for k in lines]
    low = min(few)
    key = ctx.choice([k for k, f in zip(lines, few) if f == low]
                     if ctx.flip(0.7) else lines)
    name = (key[0].co_filename, key[1])
    STOPPED[name] = STOPPED.get(name, 0) + 1
    visit = ctx.integers(1, seen[key]) if ctx.flip() else 1
    got, errors = [], []

    def work():
      try:
        st.thread = threading.get_ident()
        got.append(a.run())
      except BaseException as e:  # pylint: disable=broad-except
        errors.append(e)
      finally:
        st.reached.set()

    with Stop(at=(key, visit)) as st:
      t = threading.Thread(target=work, daemon=True)
      t.start()
      ctx.check(st.reached.wait(60), "a thread makes no progress")
      hit = not st.at[1]
      done = []

      def beside():
        try:
          done.append(b.run())
        except BaseException as e:  # pylint: disable=broad-except
          errors.append(e)

      u = threading.Thread(target=beside, daemon=True)
      u.start()
      u.join(0.4)
      waited = u.is_alive()      # for a lock held by the stopped thread
      st.resume.set()
      t.join(60)
      u.join(60)
      ctx.check(not t.is_alive() and not u.is_alive(),
                "a thread makes no progress")
    where = "%s:%d" % (name[0][len(ROOT):], name[1])
    if errors:
      raise core.Violation("%s, stopped at %s while %s ran, raised %s: %s" % (
          a.what, where, b.what, type(errors[0]).__name__,
          str(errors[0])[:300])) from errors[0]
    same(ctx, want, got[0], a)
    same(ctx, other, done[0], b)
    if hit:
      ctx.stats.obs("stops")
      if STOPPED[name] == 1:
        ctx.stats.obs("lines_stopped_at")
    if waited:
      ctx.stats.obs("stops_that_blocked")
  ctx.obs("stopped_runs")


CHECK = core.Check(
    "C32",
    [
        core.Group("mixed", case_mixed, 160, 6000, cpu=120),
        core.Group("same", case_same, 200, 6000, cpu=120),
        core.Group("cached", case_cached, 120, 4000, cpu=120),
        core.Group("stop", case_stop, 300, 8000, cpu=120),
    ],
    rule="cases in which every result computed in concurrent threads was "
         "compared with the serial one; distinct by the jobs of each thread",
    required=("threaded_runs", "results_compared", "switches_in_library",
              "new_switch_points", "solver_jobs", "shared_inputs",
              "same_jobs", "cached_runs", "stopped_runs", "stops",
              "lines_stopped_at"),
    setup=nets.setup_jax,
)
