"""C14: canonicalising a finite MPS and moving its centre keep the state."""
import numpy as np
import tensornetwork as tn
from tensornetwork import FiniteMPS
from tensornetwork.matrixproductstates.base_mps import BaseMPS

from tnv import core, mps, nets
from tnv.dense import Frozen, to_np


def deviation(x):
  return complex(np.asarray(to_np(x)).reshape(()) if not hasattr(x, "todense")
                 else np.asarray(x.todense()).reshape(()))


def _num(x):
  return complex(np.asarray(to_np(x)).reshape(()))


def matricise(psi, bond):
  """psi with axes (D0, d..., DN) split after `bond` physical sites."""
  return psi.reshape(int(np.prod(psi.shape[:bond + 1])), -1)


class Shadow:
  """The dense state next to an MPS while its centre moves."""

  def __init__(self, ctx, m, psi, dtype, d):
    self.ctx, self.m, self.psi, self.dtype, self.d = ctx, m, psi, dtype, d
    self.tol = mps.tolof(dtype)

  def verify(self, what, canonical=True, tolf=1.0):
    ctx, m = self.ctx, self.m
    scale = max(np.linalg.norm(self.psi), 1e-300)
    ctx.close(mps.state(m) / scale, self.psi / scale, what + ": state",
              tol=self.tol * tolf)
    mps.bookkeeping(ctx, m, what, self.dtype, self.d)
    if canonical:
      mps.isometries(ctx, m, what, self.tol * 10)
      dev = deviation(m.check_canonical())
      ctx.check(abs(dev) < self.tol * 100, "%s: check_canonical reports %s on "
                "a canonical MPS", what, dev)
      ctx.obs("canonical_forms")

  def step(self):
    ctx, m = self.ctx, self.m
    n = len(m)
    site = ctx.integers(0, n - 1)
    normalize = ctx.choice([None, True, False, False])
    kw = {} if normalize is None else {"normalize": normalize}
    normalize = True if normalize is None else normalize
    c = m.center_position
    path = (list(range(c + 1, site + 1)) if site > c else
            list(range(c, site, -1)))
    D = err = None
    if path and ctx.flip(0.4):
      if ctx.flip(0.6):
        D = ctx.integers(1, 5)
      if ctx.flip(0.5) or D is None:
        err = float(ctx.choice([0.0, 10.0**ctx.rng.uniform(-3, -0.05),
                                10.0**ctx.rng.uniform(-2, -0.1)]))
    # dense prediction, bond by bond
    psi = self.psi.astype(np.complex128)
    Z = np.linalg.norm(psi)
    z_last = Z
    if not path and normalize:
      psi = psi / Z
    lossy = False
    for b in path:
      bond = int(m.bond_dimensions[b])
      use_svd = (D is not None and D < bond) or err is not None
      if use_svd:
        mat = matricise(psi, b)
        u, s, vh = np.linalg.svd(mat, full_matrices=False)
        k = len(s)
        if err is not None:
          tails = np.sqrt(np.cumsum((s**2)[::-1])[::-1])
          tails = np.append(tails, 0)
          lim = err * s[0]
          ok = [i for i in range(len(s) + 1) if tails[i] <= lim]
          k = min(ok) if err > 0 else len(s)
          if err > 0 and any(abs(t - lim) < 1e-3 * lim + 1e-5 * s[0]
                             for t in tails):
            return  # the outcome would be decided by rounding
          if k == 0:
            return
        if D is not None:
          k = min(k, D)
        if k < len(s):
          if s[k - 1] - s[k] < 1e-2 * s[0] and s[k] > 1e-7 * s[0]:
            return  # the best approximation is not unique
          if s[k] > 1e-7 * s[0]:
            lossy = True
            # the tail must be resolved for a comparison
            if s[k - 1] < 1e-4 * s[0]:
              return
        psi = ((u[:, :k] * s[:k]) @ vh[:k]).reshape(psi.shape)
      z_last = np.linalg.norm(psi)
      if normalize:
        psi = psi / z_last
    if z_last < 1e-30:
      return
    if D is not None:
      kw["D"] = D
    if err is not None:
      kw["max_truncation_err"] = err
    before = [int(x) for x in m.bond_dimensions]
    ctx.note("position", c, "->", site, kw)
    ctx.sig(c, site, sorted(kw.items()))
    got = _num(m.position(site, **kw))
    ctx.eq(m.center_position, site, "centre after position")
    after = [int(x) for x in m.bond_dimensions]
    if D is not None:
      for b in path:
        ctx.check(after[b] <= D, "position(%d, D=%d) left bond %d with "
                  "dimension %d", site, D, b, after[b])
      ctx.obs("limited_moves")
    for b in range(len(after)):
      ctx.check(after[b] <= before[b] if b in path else
                after[b] == before[b], "position %d->%d changed bond %d from "
                "%d to %d", c, site, b, before[b], after[b])
    ctx.close(got / z_last, 1.0, "norm returned by position(%d->%d, %s)" %
              (c, site, kw), tol=self.tol * 10, shape=False)
    self.psi = psi.reshape(self.psi.shape)
    self.verify("position(%d->%d, %s)" % (c, site, kw), tolf=10.0)
    ctx.obs("moves")
    if lossy:
      ctx.obs("lossy_moves")
    if not normalize and path:
      ctx.obs("unnormalized_moves")


def build(ctx, backend=None, maxn=6):
  backend, dtype, ts, desc = mps.gen_tensors(ctx, backend, maxn)
  ctx.note(backend, np.dtype(dtype).name, desc, [tuple(t.shape) for t in ts])
  ctx.sig(backend, np.dtype(dtype).char, desc, [tuple(t.shape) for t in ts])
  ctx.obs("backend_" + backend)
  psi = mps.chain([to_np(t).astype(np.complex128) for t in ts])
  return backend, dtype, ts, psi


def case_moves(ctx, backend=None):
  backend, dtype, ts, psi = build(ctx, backend)
  n = len(ts)
  d = [t.shape[1] for t in ts]
  given = list(ts)
  frozen = Frozen(tensors=given)
  c = ctx.choice([None] + list(range(n)))
  kw = {} if c is None and ctx.flip() else {"center_position": c}
  if ctx.flip(0.3):
    kw["canonicalize"] = True
  ctx.note("construct", kw)
  m = FiniteMPS(given, backend=backend, **kw)
  ctx.eq(m.center_position, c or 0, "centre after construction")
  ctx.obs("constructed")
  if n == 1:
    ctx.obs("single_site")
  sh = Shadow(ctx, m, psi / np.linalg.norm(psi), dtype, d)
  sh.verify("constructor", tolf=10.0)
  for _ in range(ctx.integers(1, 4)):
    if ctx.flip(0.15):
      z = ctx.choice([0.25, 3.0, -2.0])
      i = ctx.integers(0, n - 1)
      if i == m.center_position:
        m.tensors[i] = m.tensors[i] * z
        sh.psi = sh.psi * z
    sh.step()
  frozen.verify(ctx, "MPS construction and moves")


def case_canonicalize(ctx, backend=None):
  """canonicalize on arbitrary tensors, with and without normalisation."""
  backend, dtype, ts, psi = build(ctx, backend)
  n = len(ts)
  d = [t.shape[1] for t in ts]
  given = list(ts)
  frozen = Frozen(tensors=given)
  m = FiniteMPS(given, backend=backend, canonicalize=False)
  ctx.eq(m.center_position, None, "centre of a non-canonical MPS")
  sh = Shadow(ctx, m, psi, dtype, d)
  sh.verify("constructor without canonicalisation", canonical=False)
  ctx.rejects(lambda: m.position(0), "position without a centre")
  ctx.rejects(m.check_canonical, "check_canonical without a centre",
              (ValueError,))
  nrm = np.linalg.norm(psi)
  rounds = ctx.integers(1, 3)
  for r in range(rounds):
    if ctx.flip(0.6) and (r or ctx.flip()):
      # gauge changes and rescaling behind the MPS's back
      m.center_position = ctx.choice([None] + list(range(n)))
    normalize = ctx.flip()
    c = m.center_position
    ctx.note("canonicalize", normalize, "centre", c)
    z = _num(m.canonicalize(normalize=normalize))
    ctx.eq(m.center_position, c if c is not None else 0,
           "centre after canonicalize")
    cur = np.linalg.norm(sh.psi)
    if normalize:
      sh.psi = sh.psi / cur
    else:
      ctx.close(z / cur, 1.0, "norm returned by canonicalize(normalize=False)",
                tol=sh.tol * 10, shape=False)
    sh.verify("canonicalize(%s)" % normalize, tolf=10.0)
    ctx.obs("canonicalized")
    if not normalize:
      ctx.obs("canonicalized_keeping_norm")
    ctx.sig(normalize, c)
  frozen.verify(ctx, "canonicalize")


def case_reports(ctx, backend=None):
  """The canonicality checks tell the truth about any tensors."""
  backend, dtype, ts, psi = build(ctx, backend, maxn=4)
  n = len(ts)
  canonical = ctx.flip()
  m = FiniteMPS(list(ts), backend=backend, canonicalize=canonical)
  if canonical:
    m.position(ctx.integers(0, n - 1))
    if ctx.flip(0.7):
      # spoil one tensor
      i = ctx.integers(0, n - 1)
      m.tensors[i] = m.tensors[i] * ctx.choice([1.5, 0.5])
  else:
    m.center_position = ctx.integers(0, n - 1)
  c = m.center_position
  tol = mps.tolof(dtype) * 100
  devs = {}
  for i in range(n):
    a = to_np(m.tensors[i]).astype(np.complex128)
    for which, g in (("l", np.einsum("apb,apc->bc", a.conj(), a)),
                     ("r", np.einsum("apb,cpb->ac", a, a.conj()))):
      want = np.linalg.norm(g - np.eye(len(g)))
      devs[i, which] = want
      got = deviation(m.check_orthonormality(
          ctx.choice([which, {"l": "left", "r": "right"}[which]]), i))
      ctx.close(got / max(1, want), want / max(1, want),
                "check_orthonormality(%r, %d)" % (which, i), tol=tol,
                shape=False)
      ctx.obs("orthonormality_reports")
  want = np.sqrt(sum(devs[i, "l" if i < c else "r"]**2
                     for i in range(n) if i != c))
  got = deviation(m.check_canonical())
  ctx.close(got / max(1, want), want / max(1, want), "check_canonical",
            tol=tol, shape=False)
  ctx.obs("canonical_reports")
  if backend != "symmetric":
    b = BaseMPS(list(ts), center_position=c, backend=backend)
    if canonical:
      b.tensors = list(m.tensors)
    got = deviation(b.check_canonical())
    ctx.close(got / max(1, want), want / max(1, want),
              "BaseMPS.check_canonical", tol=tol, shape=False)
  ctx.rejects(lambda: m.check_orthonormality(ctx.choice(["x", "", "center"]),
                                             0), "unknown orthonormality side",
              (ValueError,))


def case_invalid(ctx):
  backend, dtype, ts, psi = build(ctx, ctx.choice(
      ["numpy", "numpy", "tensorflow", "symmetric"]), maxn=4)
  n = len(ts)
  kind = ctx.choice(["center", "center_noncanon", "dtype", "position", "err",
                     "bond", "tensor", "random", "random_ok"])
  ctx.note(kind)
  ctx.sig(kind)
  ctx.obs("invalid_" + kind)
  if kind == "center":
    c = ctx.choice([-1, -2, n, n + 2])
    ctx.rejects(lambda: FiniteMPS(list(ts), center_position=c,
                                  backend=backend),
                "centre %d of %d sites" % (c, n), (ValueError,))
  elif kind == "center_noncanon":
    ctx.rejects(lambda: FiniteMPS(list(ts), center_position=0,
                                  canonicalize=False, backend=backend),
                "centre of a non-canonical MPS", (ValueError,))
  elif kind == "dtype":
    if n == 1:
      return
    ts = list(ts)
    i = ctx.integers(0, n - 1)
    other = np.complex128 if np.dtype(dtype) != np.complex128 else np.float64
    ts[i] = ts[i].astype(other) if hasattr(ts[i], "astype") else ts[i]
    if backend == "tensorflow" or not hasattr(ts[i], "astype"):
      return
    ctx.rejects(lambda: FiniteMPS(ts, backend=backend), "mixed dtypes",
                (TypeError,))
  elif kind == "random":
    ctx.rejects(lambda: FiniteMPS.random([2] * n, [2] * n, dtype=np.float64,
                                         backend="numpy"),
                "random with too many bonds", (ValueError,))
  elif kind == "random_ok":
    d, D = mps.gen_shape(ctx, edges=0)
    D = D[1:-1]
    dt = ctx.choice([np.float64, np.complex128, np.float32])
    be = ctx.choice(["numpy", "numpy", "tensorflow"])
    can = ctx.flip(0.7)
    m = FiniteMPS.random(list(d), list(D), dtype=dt, backend=be,
                         canonicalize=can)
    mps.bookkeeping(ctx, m, "random", dt, d)
    if can:
      ctx.eq(m.center_position, 0, "centre of a random MPS")
      ctx.close(np.linalg.norm(mps.state(m)), 1.0, "norm of a random MPS",
                tol=mps.tolof(dt) * 10)
      mps.isometries(ctx, m, "random", mps.tolof(dt) * 10)
    ctx.obs("random_states")
  else:
    m = FiniteMPS(list(ts), backend=backend,
                  center_position=ctx.integers(0, n - 1))
    snap = mps.snapshot(m)
    if kind == "position":
      s = ctx.choice([-1, n, n + 1, -n])
      ctx.rejects(lambda: m.position(s), "position(%d) of %d sites" % (s, n),
                  (ValueError,))
    elif kind == "err":
      e = ctx.choice([1.0, 1.5, 100.0])
      s = ctx.integers(0, n - 1)
      ctx.rejects(lambda: m.position(s, max_truncation_err=e),
                  "max_truncation_err=%s" % e, (ValueError,))
    elif kind == "bond":
      ctx.rejects(lambda: m.bond_dimension(n + ctx.integers(1, 3)),
                  "bond_dimension outside", (IndexError,))
    else:
      ctx.rejects(lambda: m.get_tensor(ctx.choice([n, n + 1, -1, -2])),
                  "get_tensor outside", (IndexError, ValueError))
    mps.untouched(ctx, m, snap, "the rejected call")


def overlap(ts, us):
  """|<t|u>| / (|t| |u|) of two chains, with running rescaling."""
  def log_inner(a, b):
    e = np.ones((1, 1), np.complex128)
    lg = 0.0
    for x, y in zip(a, b):
      e = np.einsum("ab,apc,bpd->cd", e, x.conj(), y)
      z = np.abs(e).max()
      if z == 0:
        return -np.inf
      e, lg = e / z, lg + np.log(z)
    return lg + np.log(np.abs(e[0, 0]))
  return np.exp(log_inner(ts, us) -
                0.5 * (log_inner(ts, ts) + log_inner(us, us)))


def case_long(ctx):
  """Long chains whose unnormalised norm cannot be represented."""
  n = ctx.integers(60, 220)
  dtype = ctx.choice([np.float64, np.complex128, np.float32])
  big = 4 if np.dtype(dtype) != np.float32 else 2
  scale = 10.0**(ctx.choice([-1, 1]) * big)
  Dm = ctx.integers(1, 4)
  D = [1] + [ctx.integers(1, Dm) for _ in range(n - 1)] + [1]
  d = [ctx.integers(1, 3) for _ in range(n)]
  ts = [(ctx.array((D[i], d[i], D[i + 1]), dtype) * scale).astype(dtype)
        for i in range(n)]
  c = ctx.choice([None, 0, n - 1, n // 2, ctx.integers(0, n - 1)])
  ctx.note(n, dtype.__name__, scale, c)
  ctx.sig(n, c, scale)
  tol = 1e-8 if np.dtype(dtype) != np.float32 else 2e-3
  how = ctx.flip()
  if how:
    m = FiniteMPS(list(ts), center_position=c, backend="numpy")
  else:
    m = FiniteMPS(list(ts), canonicalize=False, backend="numpy")
    m.center_position = c
    m.canonicalize()
  wide = [t.astype(np.complex128) for t in ts]
  for k in range(ctx.integers(1, 3)):
    if k:
      m.position(ctx.choice([0, n - 1, ctx.integers(0, n - 1)]))
    got = [t.astype(np.complex128) for t in m.tensors]
    ctx.check(all(np.all(np.isfinite(t)) for t in got),
              "long chain: tensors are not finite")
    mps.isometries(ctx, m, "long chain", tol)
    ctx.close(np.linalg.norm(got[m.center_position]), 1.0,
              "long chain: norm of the centre", tol=tol)
    ctx.close(overlap(wide, got), 1.0, "long chain: overlap with the original",
              tol=tol * 10)
    ctx.obs("long_chains")


CHECK = core.Check(
    "C14",
    [
        core.Group("moves", case_moves, 1600, 30000),
        core.Group("canonicalize", case_canonicalize, 800, 15000),
        core.Group("reports", case_reports, 500, 8000),
        core.Group("invalid", case_invalid, 500, 6000),
        core.Group("long", case_long, 60, 800),
    ],
    rule="histories of centre moves compared with the dense state vector "
         "truncated bond by bond; distinct by shapes, backend and history",
    setup=nets.setup_jax,
    required=("constructed", "single_site", "moves", "lossy_moves",
              "limited_moves", "unnormalized_moves", "canonical_forms",
              "canonicalized", "canonicalized_keeping_norm",
              "orthonormality_reports", "canonical_reports", "long_chains",
              "backend_tensorflow", "backend_jax", "backend_symmetric"),
)
