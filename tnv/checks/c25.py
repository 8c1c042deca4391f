"""C25: initialisers honour shape, dtype, range and seed on every backend."""
import warnings

import numpy as np
import scipy.stats
import tensornetwork as tn
from tensornetwork import block_sparse as BS
from tensornetwork.backends import backend_factory
from tensornetwork.linalg import initialization, node_linalg

from tnv import core, nets, sym
from tnv.dense import to_np

REAL = [np.float64, np.float32, np.float16]
CPLX = [np.complex128, np.complex64]
INTS = [np.int32, np.int64, np.bool_, np.uint8]
ULP = {2: 2e-3, 4: 3e-7, 8: 1e-15, 16: 1e-15}


def rand_shape(ctx, lim=2000):
  n = ctx.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
  s = [ctx.choice([1, 2, 2, 3, 4, 5]) for _ in range(n)]
  if n and ctx.flip(0.08):
    s[ctx.integers(0, n - 1)] = 0
  return s


def shape_arg(ctx, s, b):
  k = ctx.choice(["tuple", "tuple", "list", "npint"])
  if k == "npint":
    return tuple(np.int64(x) for x in s)
  return list(s) if k == "list" and b != "jax" else tuple(s)


def parts(a):
  return [a.real, a.imag] if a.dtype.kind == "c" else [a]


def expect(ctx, a, shape, dtype, what):
  ctx.eq(tuple(a.shape), tuple(shape), what + ": shape")
  ctx.eq(np.dtype(a.dtype), np.dtype(dtype), what + ": dtype")


class Level:
  """The same initialiser at backend, Tensor or Node level."""

  def __init__(self, ctx, b):
    self.ctx, self.b = ctx, b
    self.kind = ctx.choice(["backend", "tensor", "node"])
    self.how = ctx.choice(["name", "object", "default"])
    self.be = backend_factory.get_backend(b)
    self.names = None

  def __call__(self, fname, shape, ndim, **kw):
    ctx = self.ctx
    if kw.get("dtype", 0) is None and ctx.flip():
      del kw["dtype"]
    if self.kind == "backend":
      r = getattr(self.be, fname)(shape, **kw)
      return r
    bk = {"name": {"backend": self.b}, "object": {"backend": self.be},
          "default": {}}[self.how]
    if self.kind == "tensor":
      f = getattr(tn, fname)
      if self.how == "default":
        with tn.DefaultBackend(self.b):
          t = f(shape, **kw)
      else:
        t = f(shape, **kw, **bk)
      ctx.check(isinstance(t, tn.Tensor), "%s returns a %s", fname, type(t))
      ctx.eq(t.backend.name, self.b, fname + ": backend")
      return t.array
    f = getattr(node_linalg, fname)
    nm = {}
    if ctx.flip():
      nm["name"] = "node" + fname
    if ctx.flip():
      nm["axis_names"] = ["ax%d" % i for i in range(ndim)]
    if self.how == "default":
      with tn.DefaultBackend(self.b):
        n = f(shape, **kw, **nm)
    else:
      n = f(shape, **kw, **nm, **bk)
    ctx.check(isinstance(n, tn.Node), "%s returns a %s", fname, type(n))
    ctx.eq(n.backend.name, self.b, fname + ": backend")
    if "name" in nm:
      ctx.eq(n.name, nm["name"], fname + ": name")
    if "axis_names" in nm:
      ctx.eq(list(n.axis_names), nm["axis_names"], fname + ": axis names")
    ctx.eq(len(n.edges), ndim, fname + ": edges")
    ctx.check(all(e.is_dangling() for e in n.edges), "%s: edge connected",
              fname)
    return n.tensor


def case_fill(ctx):
  """ones, zeros, eye and the *_like functions."""
  b = ctx.choice(["numpy", "numpy", "tensorflow", "jax"])
  lv = Level(ctx, b)
  dtype = ctx.choice(REAL + CPLX + INTS + [None, None])
  want_t = np.float64 if dtype is None else dtype
  kind = ctx.choice(["ones", "zeros", "eye", "eye", "like"])
  ctx.note(b, lv.kind, kind, str(dtype))
  if kind == "eye":
    n = ctx.integers(0, 6)
    m = ctx.choice([None, n, 0, 1, 2, 3, 5, 8])
    kw = {"dtype": dtype}
    if m is not None or ctx.flip():
      kw["M"] = m
    a = to_np(lv("eye", n, 2, **kw))
    expect(ctx, a, (n, n if m is None else m), want_t, "eye")
    want = np.zeros(a.shape)
    for i in range(min(a.shape)):
      want[i, i] = 1
    ctx.check(np.array_equal(a.astype(complex), want), "eye is not the identity")
    ctx.sig("eye", b, lv.kind, lv.how, n, m, str(dtype))
  elif kind == "like":
    s = rand_shape(ctx)
    fname = ctx.choice(["ones_like", "zeros_like"])
    base = ctx.array(s, ctx.choice([np.float64, np.float32, np.complex128]))
    arr = lv.be.convert_to_tensor(base)
    f = getattr(initialization, fname)
    kw = {} if dtype is None else {"dtype": dtype}
    if ctx.flip():
      other = ctx.choice(["numpy", "jax"])
      src = tn.Tensor(arr, backend=b)
      # the backend of a Tensor is kept
      with tn.DefaultBackend(other):
        t = f(src, **kw)
      exp_t = base.dtype if dtype is None else dtype
      keep = to_np(src.array)
    else:
      t = f(arr, backend=b, **kw)
      exp_t = None if dtype is None else dtype
      keep = to_np(arr)
    ctx.eq(t.backend.name, b, fname + ": backend")
    a = to_np(t.array)
    expect(ctx, a, s, a.dtype if exp_t is None else exp_t, fname)
    ctx.check(np.array_equal(a.astype(complex), np.full(
        s, 1.0 if fname == "ones_like" else 0.0)), fname + ": values")
    ctx.check(np.array_equal(keep, base), fname + " changed its argument")
    ctx.sig(fname, b, tuple(s), str(dtype))
  else:
    s = rand_shape(ctx)
    a = to_np(lv(kind, shape_arg(ctx, s, b), len(s), dtype=dtype))
    expect(ctx, a, s, want_t, kind)
    ctx.check(np.array_equal(a.astype(complex), np.full(
        s, 1.0 if kind == "ones" else 0.0)), kind + ": values")
    a2 = lv(kind, shape_arg(ctx, s, b), len(s), dtype=dtype)
    if b == "numpy" and a.size:
      lv.be.convert_to_tensor(a2)[...] = 7 if a.dtype.kind != "b" else False
      c = to_np(lv(kind, tuple(s), len(s), dtype=dtype))
      ctx.check(np.array_equal(c, a), "%s shares its storage", kind)
    ctx.sig(kind, b, lv.kind, lv.how, tuple(s), str(dtype))
  ctx.obs("filled_" + b)
  ctx.obs("level_" + lv.kind)


def ks(ctx, x, cdf, what):
  """x are many draws: the distribution is the named one."""
  n = len(x)
  d = scipy.stats.kstest(x, cdf).statistic
  ctx.check(d * np.sqrt(n) < 4.0, "%s: draws do not follow the named "
            "distribution (KS distance %.4f for %d entries, mean %.3f, "
            "variance %.3f)", what, d, n, np.mean(x), np.var(x))
  # neighbours and parts are uncorrelated
  r = np.corrcoef(x[:-1], x[1:])[0, 1]
  ctx.check(abs(r) * np.sqrt(n) < 8, "%s: entries are correlated (%.3f)", what,
            r)
  ctx.obs("distributions")
  ctx.stats.obs("entries", n)


def stats_check(ctx, a, fname, lo, hi, what):
  p = [x.astype(float).ravel() for x in parts(a)]
  if fname == "random_uniform":
    cdf = scipy.stats.uniform(lo, hi - lo).cdf
  else:
    cdf = scipy.stats.norm.cdf
  for x, nm in zip(p, ("real part", "imaginary part")):
    ks(ctx, x, cdf, "%s (%s)" % (what, nm))
  if len(p) == 2:
    r = np.corrcoef(p[0], p[1])[0, 1]
    ctx.check(abs(r) * np.sqrt(len(p[0])) < 8,
              "%s: real and imaginary part are correlated (%.3f)", what, r)


def bounds(ctx):
  lo = ctx.choice([0.0, -1.0, 2.0, -0.5, 1, -3])
  return lo, lo + ctx.choice([1.0, 0.25, 3.0, 2])


def in_range(ctx, a, lo, hi, what):
  if not a.size:
    return
  eps = ULP[np.dtype(a.dtype).itemsize if a.dtype.kind == "f" else
            np.dtype(a.dtype).itemsize // 2] * max(abs(lo), abs(hi), 1)
  for x in parts(a):
    x = x.astype(float)
    ctx.check(np.isfinite(x).all() and x.min() >= lo - eps and
              x.max() <= hi + eps, "%s: entries in [%s, %s], requested "
              "[%s, %s]", what, x.min(), x.max(), lo, hi)


def drawn(ctx, a, what):
  """Every part is really drawn: no constant, no repeated block."""
  for x, nm in zip(parts(a), ("", " (imaginary part)")):
    if x.size >= 12:
      u = np.unique(x).size
      least = 4 if x.dtype == np.float16 else 0.9 * x.size
      ctx.check(u >= least, "%s%s: only %d different values among %d entries",
                what, nm, u, x.size)
  if a.dtype.kind == "c" and a.size >= 6:
    ctx.check(not np.allclose(a.real, a.imag), "%s: real and imaginary part "
              "are equal", what)


def case_random(ctx):
  b = ctx.choice(["numpy", "numpy", "tensorflow", "jax"])
  lv = Level(ctx, b)
  fname = ctx.choice(["randn", "random_uniform"])
  dtype = ctx.choice(REAL + CPLX + CPLX + [None])
  want_t = np.float64 if dtype is None else dtype
  big = ctx.flip(0.25) and dtype is not np.float16
  s = ctx.choice([[20, 20, 10], [4000], [50, 80]]) if big else rand_shape(ctx)
  kw = {"dtype": dtype}
  lo, hi = 0.0, 1.0
  if fname == "random_uniform" and ctx.flip(0.7):
    lo, hi = bounds(ctx)
    kw["boundaries"] = ctx.choice([tuple, list])((lo, hi))
  seed = ctx.choice([0, 0, 1, 2, 10, 42, 12345, 2**31 - 5,
                     ctx.integers(0, 10**6)])
  ctx.note(b, lv.kind, fname, str(dtype), s, seed)
  ctx.sig(fname, b, lv.kind, lv.how, str(dtype), tuple(s), seed, lo, hi)
  draw = lambda **k: to_np(lv(fname, shape_arg(ctx, s, b), len(s), **kw, **k))
  noise = lambda: ctx.flip() and backend_factory.get_backend(ctx.choice(
      ["numpy", "tensorflow", "jax"])).randn((2,), seed=ctx.choice([None, 3]))
  what = "%s on %s" % (fname, b)
  size = int(np.prod(s))
  np.random.seed(ctx.integers(2**31, 2**32 - 1))   # not what other cases left
  free = [draw(), draw()]
  noise()
  a1 = draw(seed=seed)
  noise()
  free.append(draw())
  a2 = draw(seed=seed)
  other = seed + ctx.choice([1, 2, 7]) if not ctx.flip(0.3) else \
      (seed // 2 if seed > 1 else 99)
  a3 = draw(seed=other)
  for a in free + [a1, a2, a3]:
    expect(ctx, a, s, want_t, what)
    if fname == "random_uniform":
      in_range(ctx, a, lo, hi, what)
    else:
      ctx.check(np.isfinite(a).all(), "%s: not finite", what)
    drawn(ctx, a, what)
    if big:
      stats_check(ctx, a, fname, lo, hi, what)
  ctx.check(np.array_equal(a1, a2), "%s: the seed %d does not determine the "
            "result", what, seed)
  ctx.obs("seeded")
  if size >= 4:
    ctx.check(not np.array_equal(a1, a3), "%s: seeds %d and %d give the same "
              "result", what, seed, other)
    ctx.check(not np.array_equal(free[0], free[1]),
              "%s: two unseeded draws are equal", what)
    ctx.check(not any(np.array_equal(f, a1) for f in free[:2]),
              "%s: an unseeded draw repeats the seeded one", what)
    ctx.obs("different_draws")
  # the three levels draw the same numbers from the same seed
  lv.kind = ctx.choice(["backend", "tensor", "node"])
  ctx.check(np.array_equal(draw(seed=seed), a1), "%s: the same seed gives "
            "different results at different levels", what)
  ctx.obs("random_" + b)
  ctx.obs("level_" + lv.kind)


# ---------------------------------------------------------------- block sparse


def indices(ctx, g, n, dims=(1, 2, 3)):
  legs = sym.rand_legs(ctx, g, n, dims, empty=0.03)
  grp = sym.rand_part(ctx, n)
  m = sym.Model(g, legs, grp, np.zeros([len(q) for q, _ in legs]))
  idx = [tn.Index([sym.make_charge(ctx, g, legs[i][0]) for i in gr],
                  [legs[i][1] for i in gr]) for gr in m.groups()]
  if n and ctx.flip(0.15):
    idx = [i.flip_flow() for i in idx]
    legs = [(q, not f) for q, f in legs]
  return legs, grp, idx


def case_sparse(ctx):
  g = sym.group(ctx)
  n = ctx.integers(1, 4)
  big = ctx.flip(0.1)
  if big:
    n = 3
  legs, grp, idx = indices(ctx, g, n, (12, 15, 18) if big else (1, 2, 3, 4))
  allowed = sym.mask(g, legs)
  dtype = ctx.choice([np.float64, np.float32] + CPLX + [None])
  want_t = np.float64 if dtype is None else dtype
  fname = ctx.choice(["ones", "zeros", "randn", "random"])
  via = ctx.choice(["module", "class", "backend", "tensor", "node"])
  be = backend_factory.get_backend("symmetric")
  kw = {} if dtype is None and ctx.flip() else {"dtype": dtype}
  lo, hi = 0.0, 1.0
  if fname == "random" and ctx.flip(0.7):
    lo, hi = bounds(ctx)
    kw["boundaries"] = (lo, hi)
  full = {"random": "random_uniform"}.get(fname, fname)
  arg = ctx.choice([list, tuple])(idx)
  seed = None
  if via in ("backend", "tensor", "node") and fname in ("randn", "random"):
    seed = ctx.choice([None, 0, 1, 77])

  def draw(seed=seed):
    k = dict(kw)
    if seed is not None:
      k["seed"] = seed
    if via == "module":
      return getattr(BS, fname)(arg, **k)
    if via == "class":
      return getattr(tn.BlockSparseTensor, fname)(arg, **k)
    if via == "backend":
      return getattr(be, full)(arg, **k)
    if via == "tensor":
      return getattr(tn, full)(arg, backend="symmetric", **k).array
    return getattr(node_linalg, full)(arg, backend="symmetric", **k).tensor

  ctx.note(fname, via, g, str(dtype))
  ctx.sig("sparse", fname, via, tuple(map(str, g)), allowed.shape, str(dtype))
  what = "block-sparse %s (%s)" % (fname, via)

  def verify(t, want_t=want_t, fname=fname):
    ctx.check(isinstance(t, tn.BlockSparseTensor), "%s: %s", what, type(t))
    dense = np.asarray(t.todense())
    m = sym.Model(g, legs, grp, np.zeros(allowed.shape))
    sym.check_meta(ctx, t, m, what)
    ctx.eq(np.dtype(t.dtype), np.dtype(want_t), what + ": dtype")
    mk = allowed.reshape(m.shape)
    ctx.eq(dense.shape, mk.shape, what + ": shape")
    ctx.check(not dense[~mk].any(), "%s: charge violating entries", what)
    v = dense[mk]
    if fname == "ones":
      ctx.check((v == 1).all(), "%s: values", what)
    elif fname == "zeros":
      ctx.check(not v.any(), "%s: values", what)
    else:
      if fname == "random":
        in_range(ctx, v, lo, hi, what)
      drawn(ctx, v, what)
      if v.size > 1500:
        stats_check(ctx, v, {"random": "random_uniform"}.get(fname, fname), lo,
                    hi, what)
    return v

  t = draw()
  v = verify(t)
  if fname in ("randn", "random"):
    t2 = draw()
    v2 = verify(t2)
    if v.size >= 4:
      same = np.array_equal(v, v2)
      ctx.check(same if seed is not None else not same, "%s: two draws %s",
                what, "differ" if not same else "are equal")
    if seed is not None:
      if v.size >= 4:
        ctx.check(not np.array_equal(verify(draw(seed + 1)), v),
                  "%s: different seeds give the same result", what)
      ctx.obs("sparse_seeded")
  # the *_like functions
  like = ctx.choice(["ones_like", "zeros_like", "randn_like", "random_like"])
  kw2 = {}
  if like == "random_like":
    lo, hi = (0.0, 1.0) if ctx.flip(0.3) else bounds(ctx)
    if (lo, hi) != (0.0, 1.0):
      kw2["boundaries"] = (lo, hi)
  what = "block-sparse " + like
  frozen = sym.snapshot(t)
  t3 = getattr(BS, like)(t, **kw2)
  verify(t3, fname=like[:-5])
  if t3.data.size:
    t3.data[...] = 3
  ctx.check(sym.snapshot(t) == frozen, "%s changed its argument", what)
  ctx.obs("sparse_" + fname)
  ctx.obs("sparse_via_" + via)


def case_sparse_eye(ctx):
  g = sym.group(ctx)
  legs, grp, idx = indices(ctx, g, ctx.integers(1, 2), (1, 2, 3, 5))
  col = tn.Index([c for i in idx for c in i.flat_charges],
                 [f for i in idx for f in i.flat_flows])
  dtype = ctx.choice([np.float64, np.float32] + CPLX + [None])
  kw = {} if dtype is None and ctx.flip() else {"dtype": dtype}
  row, rlegs = None, [(q, not f) for q, f in legs]
  if ctx.flip(0.5):
    rlegs, _, ridx = indices(ctx, g, ctx.integers(1, 2), (1, 2, 3, 5))
    row = tn.Index([c for i in ridx for c in i.flat_charges],
                   [f for i in ridx for f in i.flat_flows])
  be = backend_factory.get_backend("symmetric")
  via = ctx.choice(["module", "backend", "tensor", "node"])
  if via == "module":
    t = BS.eye(col, row, **kw)
  elif via == "backend":
    t = be.eye(col, M=row, **kw)
  elif via == "tensor":
    t = tn.eye(col, M=row, backend="symmetric", **kw).array
  else:
    t = node_linalg.eye(col, M=row, backend="symmetric", **kw).tensor
  m = sym.Model(g, legs + rlegs, [len(legs), len(rlegs)],
                np.zeros([len(q) for q, _ in legs + rlegs]))
  sym.check_meta(ctx, t, m, "eye")
  ctx.eq(np.dtype(t.dtype), np.dtype(np.float64 if dtype is None else dtype),
         "block-sparse eye: dtype")
  cq, rq = sym.total(g, legs), sym.total(g, rlegs)
  want = np.zeros((len(cq), len(rq)))
  seen = {}
  for i, q in enumerate(cq):
    seen.setdefault(tuple(q), [[], []])[0].append(i)
  neg = sym.reduce_mod(g, -rq)
  for j, q in enumerate(neg):
    seen.setdefault(tuple(q), [[], []])[1].append(j)
  for a, b in seen.values():
    for i, j in zip(a, b):
      want[i, j] = 1
  ctx.check(np.array_equal(np.asarray(t.todense()), want),
            "block-sparse eye is not the identity in every sector")
  if row is None:
    ctx.check(np.array_equal(want, np.eye(len(cq))), "model")
  ctx.sig("seye", via, tuple(map(str, g)), want.shape, str(dtype))
  ctx.obs("sparse_eye")


def case_chargearray(ctx):
  g = sym.group(ctx)
  legs, grp, idx = indices(ctx, g, ctx.integers(1, 3))
  dtype = ctx.choice([np.float64, np.float32] + CPLX + [None])
  kw = {"dtype": dtype}
  lo, hi = 0.0, 1.0
  if ctx.flip(0.7):
    lo, hi = bounds(ctx)
    kw["boundaries"] = (lo, hi)
  a = tn.ChargeArray.random(idx, **kw)
  m = sym.Model(g, legs, grp, np.zeros([len(q) for q, _ in legs]))
  ctx.eq(tuple(int(x) for x in a.shape), m.shape, "ChargeArray.random: shape")
  ctx.eq(np.dtype(a.dtype), np.dtype(np.float64 if dtype is None else dtype),
         "ChargeArray.random: dtype")
  d = np.asarray(a.data)
  ctx.eq(d.size, int(np.prod(m.shape)), "ChargeArray.random: entries")
  in_range(ctx, d, lo, hi, "ChargeArray.random")
  drawn(ctx, d, "ChargeArray.random")
  if d.size >= 4:
    ctx.check(not np.array_equal(d, tn.ChargeArray.random(idx, **kw).data),
              "ChargeArray.random: two draws are equal")
  ctx.sig("ca", tuple(map(str, g)), m.shape, lo, hi)
  ctx.obs("charge_arrays")


# ------------------------------------------------------------------------- MPS


def case_mps(ctx):
  n = ctx.integers(1, 6)
  inf = ctx.flip(0.4)
  d = [ctx.integers(1, 4) for _ in range(n)]
  D = [ctx.integers(1, 5) for _ in range(n + 1 if inf else n - 1)]
  if inf:
    D[-1] = D[0]
  dtype = ctx.choice([np.float64, np.float32] + CPLX)
  b = ctx.choice([None, "numpy", "numpy", "jax", "tensorflow"])
  kw = {} if b is None else {"backend": b}
  d0, D0 = list(d), list(D)
  full = D if inf else [1] + D + [1]
  shapes = [(full[i], d[i], full[i + 1]) for i in range(n)]
  if inf:
    make = lambda: tn.InfiniteMPS.random(d, D, dtype, **kw)
    canon = False
  else:
    canon = ctx.flip(0.4)
    make = lambda: tn.FiniteMPS.random(d, D, dtype, canonicalize=canon, **kw)
  m = make()
  ctx.check(d == d0 and D == D0, "MPS.random changed its lists")
  ctx.eq(m.backend.name, b or "numpy", "MPS.random: backend")
  ctx.eq(len(m), n, "MPS.random: length")
  ctx.eq(tuple(m.physical_dimensions), tuple(d), "MPS.random: dimensions")
  ts = [to_np(t) for t in m.tensors]
  for t, s in zip(ts, shapes):
    ctx.eq(np.dtype(t.dtype), np.dtype(dtype), "MPS.random: dtype")
    if canon:
      ctx.eq((t.shape[1],), (s[1],), "MPS.random: physical dimension")
      ctx.check(t.shape[0] <= s[0] and t.shape[2] <= s[2],
                "MPS.random: bond dimensions %s exceed %s", t.shape, s)
    else:
      ctx.eq(tuple(t.shape), s, "MPS.random: shape")
      drawn(ctx, t, "MPS.random")
    if t.dtype.kind == "c" and t.size >= 6 and max(t.shape) > 1:
      ctx.check(np.abs(t.imag).max() > 0, "MPS.random: imaginary part")
  if canon:
    ctx.check(abs(to_np(m.check_canonical())) < 1e-3, "MPS.random is not canonical")
  other = make()
  if max(np.prod(s) for s in shapes) >= 6:
    ctx.check(any(not np.array_equal(x, to_np(y))
                  for x, y in zip(ts, other.tensors)) or
              max(full) == 1 and n == 1,
              "two random MPS are equal")
  bad = list(D) + [2]
  ctx.rejects(lambda: (tn.InfiniteMPS if inf else tn.FiniteMPS).random(
      d, bad, dtype, **kw), "MPS.random with wrong number of bonds",
              (ValueError,))
  ctx.sig("mps", inf, canon, b, str(dtype), tuple(shapes))
  ctx.obs("random_mps")


def setup():
  nets.setup_jax()
  warnings.simplefilter("ignore")


CHECK = core.Check(
    "C25",
    [
        core.Group("fill", case_fill, 1500, 25000),
        core.Group("random", case_random, 1200, 20000),
        core.Group("sparse", case_sparse, 1000, 15000),
        core.Group("sparse_eye", case_sparse_eye, 400, 6000),
        core.Group("chargearray", case_chargearray, 200, 2000),
        core.Group("mps", case_mps, 400, 5000),
    ],
    rule="shape, dtype, range and value set compared with the request, "
         "Kolmogorov-Smirnov distance and correlations of large draws (passes "
         "with probability > 1 - 1e-12), seeds replayed with other draws in "
         "between; distinct by function, backend, level, shape and dtype",
    required=("filled_numpy", "filled_tensorflow", "filled_jax",
              "random_numpy", "random_tensorflow", "random_jax",
              "level_backend", "level_tensor", "level_node", "seeded",
              "different_draws", "distributions", "sparse_seeded",
              "sparse_eye", "charge_arrays", "random_mps",
              "sparse_via_module", "sparse_via_class", "sparse_via_backend",
              "sparse_via_tensor", "sparse_via_node"),
    setup=setup,
)
