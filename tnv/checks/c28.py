"""C28: block caching never changes a result.

A program is generated while it runs with caching disabled; the recorded
program is then replayed from equal inputs with a cold cache, with the warm
cache of the first replay, and with caching switched and cleared between the
steps.  Every value of every replay is compared with the uncached one.  The
tensors of one program are siblings: the same bytes read as charges of
different symmetries, flows, groupings and orders.
"""
import warnings

import numpy as np
import tensornetwork as tn
from tensornetwork import block_sparse as bs
from tensornetwork.backends import backend_factory
from tensornetwork.block_sparse.blocksparsetensor import (BlockSparseTensor,
                                                          ChargeArray)
from tensornetwork.linalg import krylov

from tnv import core, sym
from tnv.dense import to_np


def reset():
  bs.disable_caching()
  bs.clear_cache()


# -------------------------------------------------------------------- programs


def charge(ctx, g, q, dt):
  if dt == np.int16 and ctx.flip(0.8):
    return sym.make_charge(ctx, g, q)
  return bs.BaseCharge(q.astype(dt), charge_types=[sym.ctype(x) for x in g],
                       charge_dtype=dt)


def sibling_legs(ctx):
  """Legs of several tensors that share the bytes of their charges."""
  base = [ctx.rng.integers(0, 2, size=ctx.choice([2, 4, 4, 6])).astype(np.int16)
          for _ in range(ctx.integers(1, 3))]
  fams = []
  for _ in range(ctx.integers(2, 4)):
    ns = ctx.choice([1, 1, 1, 2])
    g = [ctx.choice([None, None, "Z2", 3, 4]) for _ in range(ns)]
    qs = [b.reshape(-1, ns).astype(np.int64) for b in base]
    dt = ctx.choice([np.int16, np.int16, np.int16, np.int8, np.int32])
    fams.append((g, qs, dt))
  return fams


class Program:
  """Records closures over pools; the pool of a replay starts from copies."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.inputs = []
    self.pool = []
    self.ops = []
    for g, qs, dt in sibling_legs(ctx):
      charges = [charge(ctx, g, q, dt) for q in qs]
      for _ in range(ctx.integers(1, 3)):
        at = [ctx.integers(0, len(qs) - 1) for _ in range(ctx.integers(1, 4))]
        fl = [ctx.flip() for _ in at]
        if ctx.flip(0.5) and len(at) >= 2:
          at[1], fl[1] = at[0], not fl[0]
        while np.prod([len(qs[i]) for i in at]) > 300:
          at, fl = at[:-1], fl[:-1]
        legs = [(qs[i], f) for i, f in zip(at, fl)]
        dtype = ctx.choice([np.float64, np.float64, np.complex128])
        shape = [len(q) for q, _ in legs]
        dense = (ctx.array(shape, dtype, ints=True) if ctx.flip() else
                 ctx.array(shape, dtype))
        t, _ = sym.make(ctx, g, legs, None, dtype, dense,
                        [charges[i] for i in at])
        self.inputs.append(t)
    self.pool = [t.copy() for t in self.inputs]

  def fresh(self):
    return [t.copy() for t in self.inputs]

  def tensors(self, rank=None):
    return [i for i, t in enumerate(self.pool)
            if isinstance(t, BlockSparseTensor) and t.ndim > 0 and
            (rank is None or t.ndim == rank)]

  def step(self):
    """Appends one operation; returns False if the drawn one does not apply."""
    ctx = self.ctx
    made = self.draw()
    if made is None:
      return False
    name, fn = made
    self.ops.append((name, fn))
    return True

  def draw(self):
    ctx = self.ctx
    kind = ctx.choice(["dot", "dot", "dot", "dot", "square", "square", "outer",
                       "tr", "cont", "reshape", "conj", "add", "scale", "svd",
                       "qr", "eigh", "eig", "trace", "dense", "norm", "matmul",
                       "inv", "inplace", "ncon"])
    if kind in ("svd", "qr", "eigh", "eig", "inv"):
      c = self.tensors(2)
      if not c:
        return None
      i = ctx.choice(c)
      return kind, lambda p, k=kind, i=i: DECOMP[k](p[i])
    c = self.tensors()
    if not c:
      return None
    i = ctx.choice(c)
    t = self.pool[i]
    if kind == "dot":
      j = ctx.choice(c)
      m = matches(t, self.pool[j])
      if not m:
        return None
      m = ctx.subset(m, ctx.integers(1, len(m)))
      used, pairs = set(), []
      for a, b in ctx.shuffled(m):
        if ("a", a) not in used and ("b", b) not in used:
          used |= {("a", a), ("b", b)}
          pairs.append((a, b))
      ax = [[a for a, _ in pairs], [b for _, b in pairs]]
      if t.ndim + self.pool[j].ndim - 2 * len(pairs) > 5:
        return None
      return "dot", lambda p: [bs.tensordot(p[i], p[j], ax)]
    if kind == "square":
      ax = ctx.subset(range(t.ndim), ctx.integers(max(1, t.ndim - 2), t.ndim))
      return kind, lambda p: [bs.tensordot(p[i], p[i].conj(), (ax, ax))]
    if kind == "outer":
      j = ctx.choice(c)
      u = self.pool[j]
      if t.ndim + u.ndim > 4 or t.size * u.size > 500:
        return None
      if [ct for ct in t.flat_charges[0].charge_types] != list(
          u.flat_charges[0].charge_types):
        return None
      return kind, lambda p: [bs.outerproduct(p[i], p[j])]
    if kind in ("tr", "cont"):
      perm = ctx.perm(t.ndim)
      sh = ctx.flip(0.4)
      if kind == "tr":
        return kind, lambda p: [p[i].transpose(perm, shuffle=sh)]
      return kind, lambda p: [p[i].transpose(perm).contiguous()]
    if kind == "reshape":
      flat = [x.dim for x in t.flat_charges]
      part = sym.rand_part(ctx, len(flat))
      shape, s = [], 0
      for k in part:
        shape.append(int(np.prod(flat[s:s + k])))
        s += k
      return kind, lambda p: [p[i].reshape(shape)]
    if kind == "conj":
      return kind, lambda p: [p[i].conj()]
    if kind == "add":
      c2 = [j for j in c if same_meta(t, self.pool[j])]
      j = ctx.choice(c2)
      sgn = ctx.flip()
      return kind, lambda p: [p[i] + p[j] if sgn else p[i] - p[j]]
    if kind == "scale":
      x = ctx.choice([2.0, -1.0, 0.5])
      return kind, lambda p: [p[i] * x]
    if kind == "trace":
      for a in range(t.ndim):
        for b in range(a):
          if pairable(t, a, t, b):
            return kind, lambda p, a=a, b=b: [bs.trace(p[i], [b, a])]
      return None
    if kind == "dense":
      return kind, lambda p: [p[i].todense()]
    if kind == "norm":
      return kind, lambda p: [np.asarray(bs.norm(p[i]))]
    if kind == "matmul":
      c2 = [(k, l) for k in self.tensors(2) for l in self.tensors(2)
            if pairable(self.pool[k], 1, self.pool[l], 0)]
      if not c2:
        return None
      k, l = ctx.choice(c2)
      return kind, lambda p: [p[k] @ p[l]]
    if kind == "ncon":
      r = t.ndim
      at = ctx.integers(0, r - 1)
      a = [-1 if x == at else x + 1 for x in range(r)]
      b = [-2 if x == at else x + 1 for x in range(r)]
      return kind, lambda p: [tn.ncon([p[i], p[i].conj()], [a, b],
                                      backend="symmetric")]
    if kind == "inplace":
      sort = ctx.choice(["cont", "scale"])

      def fn(p):
        if sort == "cont":
          p[i].contiguous(inplace=True)
        else:
          # may be a view of other values of the pool, in every run alike
          p[i].data = p[i].data * 2.0
        return []

      return kind, fn
    return None


def axis_meta(t, ax):
  return [(np.asarray(c.charges).astype(np.int64), bool(f),
           tuple(c.charge_types), c.dtype) for c, f in zip(
               t.charges[ax], t.flows[ax])]


def pairable(t, a, u, b):
  x, y = axis_meta(t, a), axis_meta(u, b)
  return len(x) == len(y) and all(
      q.shape == r.shape and np.array_equal(q, r) and f != h and c == d and
      e == k for (q, f, c, e), (r, h, d, k) in zip(x, y))


def matches(t, u):
  return [(a, b) for a in range(t.ndim) for b in range(u.ndim)
          if pairable(t, a, u, b)]


def same_meta(t, u):
  if t.ndim != u.ndim:
    return False
  for a in range(t.ndim):
    x, y = axis_meta(t, a), axis_meta(u, a)
    if len(x) != len(y) or any(
        q.shape != r.shape or not np.array_equal(q, r) or f != h or c != d or
        e != k for (q, f, c, e), (r, h, d, k) in zip(x, y)):
      return False
  return True


class Meta:
  """Only the charges and flows of a factor whose entries are not unique."""

  def __init__(self, t):
    self.value = sym.snapshot(t)[4], tuple(int(x) for x in t.shape)


def d_svd(t):
  u, s, v, _ = bs.svd(t, full_matrices=False)
  return [bs.tensordot(bs.tensordot(u, bs.diag(s), ([1], [0])), v,
                       ([1], [0])), s, Meta(u), Meta(v),
          bs.tensordot(u.conj(), u, ([0], [0])),
          bs.tensordot(v, v.conj(), ([1], [1]))]


def d_qr(t):
  q, r = bs.qr(t)
  return [bs.tensordot(q, r, ([1], [0])), Meta(q), Meta(r),
          bs.tensordot(q.conj(), q, ([0], [0]))]


def d_eigh(t):
  h = bs.tensordot(t, t.conj(), ([1], [1]))
  w, u = bs.eigh(h)
  return [w, Meta(u), bs.tensordot(u, u.conj(), ([1], [1]))]


def d_eig(t):
  h = bs.tensordot(t, t.conj(), ([1], [1]))
  h = h + bs.eye(h.sparse_shape[0], dtype=h.dtype)
  w, u = bs.eig(h)
  return [np.sort(np.abs(w.data)), Meta(u)]


def d_inv(t):
  h = bs.tensordot(t, t.conj(), ([1], [1]))
  h = h + bs.eye(h.sparse_shape[0], dtype=h.dtype)
  return [bs.inv(h)]


DECOMP = dict(svd=d_svd, qr=d_qr, eigh=d_eigh, eig=d_eig, inv=d_inv)


def shot(v):
  """(exact part, numeric part)"""
  if isinstance(v, Meta):
    return v.value, None
  if isinstance(v, BlockSparseTensor):
    if v.ndim == 0:
      return ("scalar", str(v.dtype)), np.asarray(v.item())
    s = sym.snapshot(v)
    return (s[0], s[1], s[2], s[4]), np.asarray(v.todense())
  if isinstance(v, ChargeArray):
    return ("charges", tuple(np.asarray(c.charges).tobytes()
                             for c in v.flat_charges),
            tuple(bool(f) for f in v.flat_flows)), np.asarray(v.data)
  a = np.asarray(v)
  return (type(v).__name__, a.shape, str(a.dtype)), a


def run(prog, before=None, after=None):
  """Executes the recorded program on fresh inputs; snapshots of all steps."""
  pool, out = prog.fresh(), []
  for k, (name, fn) in enumerate(prog.ops):
    if before:
      before(k)
    res = fn(pool)
    if after:
      after(k)
    out.append([shot(v) for v in res])
    pool += res
  final = [shot(v) for v in pool if not isinstance(v, Meta)]
  out.append(final)
  return out


def compare(ctx, got, want, names, what):
  for k, (g, w) in enumerate(zip(got, want)):
    step = names[k] if k < len(names) else "final values"
    ctx.eq(len(g), len(w), "%s, step %d (%s): number of results" % (what, k,
                                                                    step))
    for (ge, gn), (we, wn) in zip(g, w):
      ctx.check(ge == we, "%s, step %d (%s): charges, flows, shape or type "
                "differ from the uncached run", what, k, step)
      if wn is not None:
        scale = max(1.0, float(np.abs(wn).max()) if wn.size else 1.0)
        ctx.close(gn / scale, wn / scale, "%s, step %d (%s)" % (what, k, step),
                  tol=1e-11)
        ctx.obs("values_compared")


def case_programs(ctx):
  reset()
  try:
    prog = Program(ctx)
    want_ops = ctx.integers(4, 12)
    for _ in range(60):
      if len(prog.ops) >= want_ops:
        break
      if prog.step():
        name, fn = prog.ops[-1]
        try:
          res = fn(prog.pool)
        except (np.linalg.LinAlgError, MemoryError):
          prog.ops.pop()
          continue
        except (ValueError, NotImplementedError, IndexError):
          # an operation the library rejects: it must be rejected with
          # caching as well
          bs.enable_caching()
          try:
            fn(prog.fresh() + prog.pool[len(prog.inputs):])
          except (ValueError, NotImplementedError, IndexError):
            ctx.obs("rejected_in_both")
          else:
            ctx.fail("%s works only with caching", name)
          finally:
            reset()
          prog.ops.pop()
          continue
        prog.pool += res
    names = [n for n, _ in prog.ops]
    ctx.note("program", names)
    ctx.sig(tuple(names), tuple(tuple(int(d) for d in t.shape)
                                for t in prog.inputs))
    want = run(prog)
    ctx.check(bs.get_cacher().is_empty, "entries were cached with caching off")
    bs.enable_caching()
    compare(ctx, run(prog), want, names, "cold cache")
    n = len(bs.get_cacher().cache)
    ctx.stats.obs("entries", n)
    ctx.check(bs.get_caching_status(), "an operation switched caching off")
    compare(ctx, run(prog), want, names, "warm cache")
    if n:
      ctx.obs("warm_runs")
    ctx.eq(len(bs.get_cacher().cache), n, "entries after the same program")
    # the cached data survives being used: disable, work, enable again
    bs.disable_caching()
    compare(ctx, run(prog), want, names, "caching off, cache kept")
    ctx.eq(len(bs.get_cacher().cache), n, "entries with caching off")
    if ctx.flip():
      bs.clear_cache()
      ctx.check(bs.get_cacher().is_empty, "clear_cache left entries")
    status = [False]

    def toggle(k):
      r = ctx.integers(0, 5)
      if r == 0:
        bs.clear_cache()
      elif r <= 2:
        status[0] = ctx.flip()
        if ctx.flip():
          bs.set_caching_status(status[0])
        else:
          (bs.enable_caching if status[0] else bs.disable_caching)()

    def check(k):
      ctx.check(bs.get_caching_status() == status[0],
                "%s changed the caching status", names[k])

    compare(ctx, run(prog, toggle, check), want, names, "switched caching")
    ctx.obs("switched_runs")
    # data from before must not have been modified: once more, uncached
    reset()
    compare(ctx, run(prog), want, names, "caching off again")
  finally:
    reset()


def case_cross(ctx):
  """One cache serves many tensors with the same bytes, in random order."""
  reset()
  try:
    ns_all = []
    base = ctx.rng.integers(0, ctx.choice([2, 2, 3]),
                            size=12).astype(np.int16)
    jobs = []
    for _ in range(ctx.integers(4, 8)):
      ns = ctx.choice([1, 1, 2])
      g = [ctx.choice([None, "Z2", 3, 4, 5]) if base.max() < 2 else
           ctx.choice([None, 3, 4, 5]) for _ in range(ns)]
      dt = ctx.choice([np.int16, np.int16, np.int8, np.int32])
      # cut the bytes into legs
      cuts = sorted({0, 12} | set(ctx.subset(
          [x for x in range(2, 12, 2)], ctx.integers(1, 2))))
      if ctx.flip():
        cuts = [0, 4, 8, 12]
      if ctx.flip(0.4):
        cuts = [0, 4, 8]
      raw, unit = base, 1.0
      if dt != np.int16 and (ns == 1 or dt == np.int8) and cuts[-1] == 8:
        raw = base.view(dt)
        unit = len(raw) / 12
        if dt == np.int32:
          g = [None]
      legs = [(raw[int(a * unit):int(b * unit)].reshape(-1, ns).astype(
          np.int64), ctx.flip()) for a, b in zip(cuts, cuts[1:])]
      t, m = sym.make(ctx, g, legs, None, np.float64, None,
                      [charge(ctx, g, q, dt) for q, _ in legs])
      p = ctx.perm(m.ndim)
      ax = ctx.subset(range(m.ndim), ctx.integers(1, m.ndim))
      kind = ctx.choice(["square", "cont", "trdot"])
      jobs.append((kind, t, m, p, ax))
      ns_all.append((tuple(map(str, g)), tuple(cuts), np.dtype(dt).name))
    ctx.note("cross", ns_all, base.tolist())
    ctx.sig(tuple(ns_all))
    bs.enable_caching()
    for kind, t, m, p, ax in ctx.shuffled(jobs * 2):
      t = t.copy()
      d = m.todense()
      if kind == "square":
        r = bs.tensordot(t, t.conj(), (ax, ax))
        want = np.tensordot(d, d, (ax, ax))
      elif kind == "cont":
        r, want = t.transpose(p).contiguous(), np.transpose(d, p)
      else:
        s = t.transpose(p)
        at = [p.index(a) for a in ax]
        r = bs.tensordot(s, t.conj(), (at, ax))
        want = np.tensordot(np.transpose(d, p), d, (at, ax))
      got = np.asarray(r.todense() if r.ndim else r.item())
      ctx.close(got, want, "cached %s of %s" % (kind, m.shape), tol=1e-10)
      ctx.obs("cross_layout_results")
    ctx.stats.obs("entries", len(bs.get_cacher().cache))
  finally:
    reset()


def case_classes(ctx):
  """Charges of the specific and of the generic class share the cache."""
  reset()
  g = sym.group(ctx, 2)
  q = [sym.rand_q(ctx, g, ctx.integers(2, 6), 1) for _ in range(2)]
  types = [sym.ctype(x) for x in g]
  jobs = []
  for generic in (False, True):
    cs = [bs.BaseCharge(x.astype(np.int16), charge_types=types) if generic else
          sym.make_charge(ctx, g, x) for x in q]
    for k in range(2):
      m = ctx.array((len(q[k]),))
      jobs.append(("diag", generic, cs, k, m))
    legs = [(q[0], False), (q[1], False), (q[0], True), (q[1], True)]
    m = np.where(sym.mask(g, legs), ctx.array([len(x) for x, _ in legs]), 0.0)
    jobs += [(kind, generic, cs, legs, m) for kind in ("split", "eig", "dot")]
  ctx.sig(tuple(map(str, g)), tuple(len(x) for x in q), ctx.integers(0, 9999))
  try:
    bs.enable_caching()
    for kind, generic, cs, legs, m in ctx.shuffled(jobs * 2):
      what = "cached %s with %s charges" % (
          kind, "generic" if generic else "specific")
      ctx.note(what)
      if kind == "diag":
        c = cs[legs]
        r = bs.diag(bs.ChargeArray(m, [c.copy()], [False]))
        ctx.close(r.todense(), np.diag(m), what, tol=1e-12)
        continue
      t = BlockSparseTensor.fromdense(
          [bs.Index(cs[i].copy(), f) for i, (_, f) in
           zip([0, 1, 0, 1], legs)], m)
      n = m.shape[0] * m.shape[1]
      if kind == "split":
        u, sv, v = bs.svd(t.reshape((n, n)), full_matrices=False)
        ctx.close((u @ bs.diag(sv) @ v).todense(), m.reshape(n, n), what,
                  tol=1e-9)
        node = tn.Node(t, backend="symmetric")
        a, b, _ = tn.split_node(node, node.edges[:2], node.edges[2:])
        r = a @ b
        ctx.close(r.tensor.todense(), m, what, tol=1e-9)
      elif kind == "eig":
        d = m.reshape(n, n)
        h = BlockSparseTensor.fromdense(
            [bs.Index(cs[i].copy(), f) for i, (_, f) in
             zip([0, 1, 0, 1], legs)], (d + d.T).reshape(m.shape))
        h = h.reshape((n, n))
        e, u = bs.eigh(h)
        ctx.close((u @ bs.diag(e) @ u.conj().T).todense(), h.todense(), what,
                  tol=1e-9)
      else:
        r = bs.tensordot(t, t.conj(), ([0, 1], [0, 1]))
        ctx.close(r.todense(), np.tensordot(m, m, ([0, 1], [0, 1])), what,
                  tol=1e-10)
      ctx.stats.obs("class_results")
    ctx.obs("mixed_classes")
  finally:
    reset()


# --------------------------------------------------------------------- solvers


class Boom(Exception):
  pass


def problem(ctx, shift=0.0):
  g = sym.group(ctx)
  dtype = ctx.choice([np.float64, np.complex128])
  for _ in range(100):
    k = ctx.choice([1, 2, 2, 3])
    legs = [(sym.rand_q(ctx, g, ctx.choice([2, 3, 3, 4]), 1), ctx.flip())
            for _ in range(k)]
    msk = sym.mask(g, legs).reshape(-1)
    shape = [len(q) for q, _ in legs]
    if 5 <= msk.sum() <= 30 and np.prod(shape) <= 80:
      break
  else:
    raise core.Inconclusive("no suitable legs")
  n = int(np.prod(shape))
  charges = [sym.make_charge(ctx, g, q) for q, _ in legs]
  inn = [(q, not f) for q, f in legs]
  a = ctx.array((n, n), dtype)
  a = (a + a.conj().T) / np.sqrt(n) + shift * np.eye(n)
  a = np.where(sym.mask(g, legs + inn).reshape(n, n), a, 0)
  H, _ = sym.make(ctx, g, legs + inn, [1] * (2 * k), dtype,
                  a.reshape(shape + shape), charges + charges)
  x, _ = sym.make(ctx, g, legs, [1] * k, dtype, None, charges)
  b, bm = sym.make(ctx, g, legs, [1] * k, dtype, None, charges)
  if not np.any(x.data) or not np.any(b.data):
    raise core.Inconclusive("empty start")
  return g, k, H, x, b, a[np.ix_(msk, msk)]


def case_solvers(ctx):
  reset()
  be = backend_factory.get_backend("symmetric")
  try:
    solver = ctx.choice(["eigsh_lanczos", "eigsh_lanczos", "eigs", "gmres"])
    g, k, H, x0, b, m = problem(ctx, 8.0 if solver == "gmres" else 0.0)
    axes = (list(range(k, 2 * k)), list(range(k)))
    n = m.shape[0]
    found = ctx.choice([True, False])
    fill = ctx.flip()
    enable = ctx.choice([True, True, False])
    route = ctx.choice(["backend", "backend", "linalg"])
    if route == "linalg":
      enable = True
    fault = ctx.choice([None, None, None, "raise", "raise", "type", "svd",
                        "toggle", "nested", "interrupt"])
    at = ctx.integers(1, 4)
    calls = [0]
    seen = set()

    def op(x, h):
      arr = x.array if isinstance(x, tn.Tensor) else x
      hh = h.array if isinstance(h, tn.Tensor) else h
      calls[0] += 1
      seen.add(bool(bs.get_caching_status()))
      r = bs.tensordot(hh, arr, axes)
      if fault == "svd" and arr.ndim >= 2:
        mat = arr.reshape((arr.shape[0], int(np.prod(arr.shape[1:]))))
        bs.svd(mat)
      if calls[0] == at:
        if fault == "raise":
          raise Boom("operator failed")
        if fault == "interrupt":
          raise KeyboardInterrupt
        if fault == "type":
          return None
        if fault == "toggle":
          how = ctx.choice(["enable", "disable"])
          (bs.enable_caching if how == "enable" else bs.disable_caching)()
        if fault == "nested":
          inner = []

          def op2(y, h2):
            inner.append(1)
            if len(inner) == 2 and ctx.flip(0.3):
              raise Boom("inner operator failed")
            return bs.tensordot(h2, y, axes)

          before = bs.get_caching_status()
          try:
            be.eigsh_lanczos(op2, [hh], initial_state=b.copy(),
                             num_krylov_vecs=4, enable_caching=ctx.flip())
          except Boom:
            ctx.obs("nested_failures")
          ctx.check(bs.get_caching_status() == before,
                    "the inner solver changed the caching status")
          ctx.obs("nested_solvers")
      return tn.Tensor(r, backend=be) if isinstance(x, tn.Tensor) else r

    def call(enable, initial, rhs):
      wrap = (lambda t: tn.Tensor(t, backend=be)) if route == "linalg" else (
          lambda t: t)
      kw = {} if route == "linalg" else dict(enable_caching=enable)
      mod = krylov if route == "linalg" else be
      with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if solver == "gmres":
          r = mod.gmres(op, wrap(rhs), A_args=[wrap(H)], x0=wrap(initial),
                        tol=1e-9, num_krylov_vectors=n, maxiter=3, **kw)
          r = r[0]
          return r.array.todense() if route == "linalg" else r.todense()
        extra, start = {}, "x0" if route == "linalg" else "initial_state"
        if route == "linalg":
          extra["backend"] = be
        if solver == "eigs":
          extra[start] = wrap(initial)
          v, _ = mod.eigs(op, **extra, args=[wrap(H)], num_krylov_vecs=n,
                          numeig=1, which="LR", **kw)
        else:
          extra[start] = wrap(initial)
          v, _ = mod.eigsh_lanczos(op, **extra, args=[wrap(H)],
                                   num_krylov_vecs=n + 2, numeig=1,
                                   reorthogonalize=True, **kw)
        return np.real(np.asarray(to_np(v[0])))

    ctx.note(solver, route, "enable", enable, "found status", found, "filled",
             fill, "fault", fault, at)
    ctx.sig(solver, route, enable, found, fill, fault, at, g)
    saved, fault_now = fault, None
    # reference without caching and without faults
    fault = None
    reset()
    if route == "backend":
      want = call(False, x0.copy(), b.copy())
      ctx.check(bs.get_cacher().is_empty and not bs.get_caching_status(),
                "%s with enable_caching=False switched or filled the cache",
                solver)
    else:
      w = np.linalg.eigvalsh(m)
      want = None
      if solver != "gmres":
        want = w[-1] if solver == "eigs" else w[0]
    fault, calls[0] = saved, 0
    seen.clear()
    keys = set()
    if fill:
      bs.enable_caching()
      t = H.copy()
      bs.tensordot(t, t.conj(), (axes[1], axes[1]))
      keys = set(bs.get_cacher().cache)
      bs.disable_caching()
    was_empty = bs.get_cacher().is_empty
    bs.set_caching_status(found)
    failed = False
    try:
      got = call(enable, x0.copy(), b.copy())
    except (Boom, KeyboardInterrupt):
      failed = True
      ctx.check(fault in ("raise", "interrupt", "nested"),
                "unexpected operator failure")
      ctx.obs("operator_raised")
    except (TypeError, AttributeError, ValueError):
      if fault != "type":
        raise
      failed = True
      ctx.obs("bad_operators")
    what = "%s (%s) found the cache %s with status %s" % (
        solver, "failing operator" if failed else "working operator",
        "empty" if was_empty else "in use", found)
    ctx.check(bool(bs.get_caching_status()) == found,
              "%s and left it with status %s", what, bs.get_caching_status())
    if was_empty and enable:
      ctx.check(bs.get_cacher().is_empty, "%s and left %d entries", what,
                len(bs.get_cacher().cache))
      ctx.obs("emptied")
    elif was_empty and not found and fault not in ("toggle", "nested"):
      ctx.check(bs.get_cacher().is_empty, "%s, was told not to cache and left "
                "%d entries", what, len(bs.get_cacher().cache))
    if not was_empty:
      ctx.check(keys <= set(bs.get_cacher().cache),
                "%s and dropped entries it found", what)
      ctx.obs("found_entries_kept")
    if not failed and want is not None:
      ctx.close(got, want, "%s: result with caching" % solver, tol=1e-6 * max(
          1.0, float(np.abs(want).max())))
      ctx.obs("solved")
    if enable in seen:
      ctx.obs("status_in_operator")
    ctx.obs("solver_" + solver)
    # the library still works, and what is cached is still right
    bs.enable_caching()
    d = np.asarray(H.todense())
    t = H.copy()
    ctx.close(bs.tensordot(t, x0.copy(), axes).todense(),
              np.tensordot(d, np.asarray(x0.todense()), axes),
              "contraction after " + solver, tol=1e-10)
  finally:
    reset()


def setup():
  warnings.simplefilter("ignore")


CHECK = core.Check(
    "C28",
    [
        core.Group("programs", case_programs, 700, 15000),
        core.Group("cross", case_cross, 600, 12000),
        core.Group("classes", case_classes, 200, 4000),
        core.Group("solvers", case_solvers, 900, 15000),
    ],
    rule="random block-sparse programs run uncached, then replayed with a "
         "cold, warm and switched cache; solvers with working, failing, "
         "switching and nested operators; distinct by operations and layouts",
    required=("values_compared", "warm_runs", "switched_runs", "entries",
              "cross_layout_results", "class_results", "emptied", "found_entries_kept",
              "solved", "operator_raised", "bad_operators", "nested_solvers",
              "nested_failures", "status_in_operator",
              "solver_eigsh_lanczos", "solver_eigs", "solver_gmres"),
    setup=setup,
)
