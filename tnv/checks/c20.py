"""C20: Krylov solvers return true eigenpairs and true solutions."""
import functools
import warnings

import numpy as np
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from tensornetwork.linalg import krylov

from tnv import core, nets, sym
from tnv.dense import Frozen, to_np

warnings.filterwarnings("ignore", category=DeprecationWarning)
SHAPES = [(2,), (5,), (7,), (12,), (2, 3), (3, 4), (2, 2, 3), (1, 6), (4, 1, 2),
          (2, 3, 2, 2)]


def unitary(ctx, n, dtype):
  return np.linalg.qr(ctx.array((n, n), dtype))[0].astype(dtype)


class Monitor:
  """Wraps the operator: counts calls and watches the arrays it handed out."""

  def __init__(self, ctx, fn, shape, dtype, keep=True):
    self.ctx, self.fn, self.shape, self.dtype = ctx, fn, shape, dtype
    self.calls = 0
    self.out = []
    self.keep = keep
    self.first = None

  def __call__(self, x, *args, **kw):
    self.calls += 1
    raw = x.array if isinstance(x, tn.Tensor) else x
    self.ctx.check(tuple(raw.shape) == tuple(self.shape), "the operator got a "
                   "vector of shape %s, expected %s", raw.shape, self.shape)
    if self.first is None:
      self.first = to_np(raw).reshape(-1).copy()
    y = self.fn(x, *args, **kw)
    yr = y.array if isinstance(y, tn.Tensor) else y
    if self.keep and len(self.out) < 40:
      self.out.append((yr, Frozen(y=yr)))
    self.ctx.obs("operator_calls")
    return y

  def verify(self, what):
    for _, f in self.out:
      f.verify(self.ctx, what + " (array returned by the operator)")


def numpy_problem(ctx, kind, small=False):
  """(function of (x, *args), args, dense matrix, shape, dtype)."""
  shape = ctx.choice(SHAPES)
  dtype = ctx.choice([np.float64, np.complex128, np.float64, np.complex128,
                      np.float32, np.complex64])
  n = int(np.prod(shape))
  if kind == "hermitian":
    w = np.sort(ctx.rng.normal(size=n)) + np.arange(n) * 0.5
    w = w - ctx.choice([0.0, w.mean(), w.max() + 1])
    if ctx.flip(0.15):
      w = np.round(w)  # degenerate
    u = unitary(ctx, n, np.complex128 if np.dtype(dtype).kind == "c" else
                np.float64)
    m = (u * w) @ u.conj().T
    if ctx.flip(0.15):
      m = m * ctx.choice([1e-2, 30.0])
    m = (m + m.conj().T) / 2
  elif kind == "general":
    m = ctx.array((n, n), np.complex128 if np.dtype(dtype).kind == "c" else
                  np.float64)
  else:  # well conditioned
    m = ctx.array((n, n), np.complex128 if np.dtype(dtype).kind == "c" else
                  np.float64) / np.sqrt(n) * 0.4 + np.eye(n) * ctx.choice(
                      [1.0, -2.0])
  m = m.astype(dtype)
  style = ctx.integers(0, 3)
  k = len(shape)
  t = m.reshape(shape + shape)
  axes = (list(range(k, 2 * k)), list(range(k)))
  ctx.note(kind, shape, np.dtype(dtype).name, "style", style)
  ctx.sig(kind, shape, np.dtype(dtype).char, style)
  if style == 0:
    return (lambda x, a: np.tensordot(a, x, axes)), [t], m, shape, dtype
  if style == 1:
    half = (m * dtype(0.5)).reshape(shape + shape)
    return (lambda x, a, b: np.tensordot(a, x, axes) + np.tensordot(
        b, x, axes)), [half, half], m, shape, dtype
  if style == 2:
    # hands out one preallocated, non-contiguous buffer view per call
    return (lambda x: np.asfortranarray(np.tensordot(t, x, axes)) if k > 1 else
            np.tensordot(t, x, axes)), None, m, shape, dtype

  def readonly(x, a):
    y = np.tensordot(a, x, axes)
    y.setflags(write=False)
    return y

  return readonly, [t], m, shape, dtype


def start(ctx, shape, dtype):
  x = ctx.array(shape, dtype)
  kind = ctx.integers(0, 3)
  if kind == 1 and len(shape) > 1:
    x = np.asfortranarray(x)
  elif kind == 2:
    x = np.repeat(x, 2, axis=0)[::2]
  elif kind == 3:
    x.setflags(write=False)
  if ctx.flip(0.3):
    s = ctx.choice([1e-3, 50.0])
    y = (x * dtype(s)).astype(dtype)
    return y
  return x


def eps(dtype):
  return 1e-3 if np.dtype(dtype) in (np.float32, np.complex64) else 1e-7


def norm2(m):
  return max(1e-3, float(np.linalg.norm(m, 2))) if m.size else 1.0


def pairs(ctx, vals, vecs, m, shape, dtype, what, tol=None, vdtype=None):
  """Residuals, normalisation, shape and dtype of eigenpairs."""
  tol = tol or eps(dtype)
  scale = norm2(m)
  ctx.eq(len(vals), len(vecs), what + ": number of eigenvectors")
  for lam, v in zip(vals, vecs):
    a = to_np(v)
    ctx.eq(tuple(a.shape), tuple(shape), what + ": shape of an eigenvector")
    if vdtype is not None:
      ctx.eq(a.dtype, np.dtype(vdtype), what + ": dtype of an eigenvector")
    x = a.reshape(-1).astype(np.complex128)
    ctx.close(np.linalg.norm(x), 1.0, what + ": norm of an eigenvector",
              tol=tol)
    r = np.linalg.norm(m.astype(np.complex128) @ x - complex(lam) * x)
    ctx.check(r <= tol * scale, "%s: residual %.3g of the pair with eigenvalue "
              "%s (matrix norm %.3g)", what, r, lam, scale)
    ctx.obs("eigenpairs")


def drifts(m, x, steps):
  """Whether plain Lanczos loses orthogonality on this problem.

  That is a property of the algorithm without reorthogonalization: ghosts of
  converged eigenvalues appear and their vectors are arbitrary.
  """
  tol = 1e-4 if m.dtype in (np.float32, np.complex64) else 1e-8
  x = x.astype(m.dtype) / np.linalg.norm(x)
  vs, beta = [x], 0
  for _ in range(steps - 1):
    y = m @ vs[-1]
    y = y - np.vdot(vs[-1], y) * vs[-1]
    if len(vs) > 1:
      y = y - beta * vs[-2]
    beta = np.linalg.norm(y)
    if beta < 1e-8:
      break
    vs.append((y / beta).astype(m.dtype))
    v = np.array(vs[:-1])
    if np.abs(v.conj() @ vs[-1]).max() > tol:
      return True
  return False


def call(ctx, be, name, fn, args, x0, route, **kw):
  """Calls a solver through the backend or through tn.linalg.krylov."""
  if route == "backend":
    kw = dict(kw)
    if x0 is not None:
      kw["initial_state"] = x0
    return getattr(be, name)(fn, args if args is not None or ctx.flip() else
                             [], **kw)
  targs = None if args is None else [tn.Tensor(a, backend=be.name)
                                     for a in args]
  if x0 is not None:
    kw["x0"] = tn.Tensor(x0, backend=be.name)
  if x0 is None or ctx.flip(0.3):
    kw["backend"] = ctx.choice([be.name, be])
  vals, vecs = getattr(krylov, name)(fn, args=targs, **kw)
  for v in vecs:
    ctx.check(isinstance(v, tn.Tensor) and v.backend is be,
              "%s: eigenvector is no Tensor of the backend", name)
  return vals, [v.array for v in vecs]


def lift(fn, route, be="numpy"):
  """The operator for Tensors when called through tn.linalg.krylov."""
  if route == "backend":
    return fn
  return lambda x, *a: tn.Tensor(fn(x.array, *[y.array for y in a]),
                                 backend=be)


def lanczos_case(ctx):
  be = backend_factory.get_backend("numpy")
  fn, args, m, shape, dtype = numpy_problem(ctx, "hermitian")
  n = m.shape[0]
  route = ctx.choice(["backend", "linalg"])
  mon = Monitor(ctx, lift(fn, route), shape, dtype)
  numeig = ctx.choice([1, 1, 1, 2, 3])
  numeig = min(numeig, n)
  kw = dict(numeig=numeig, reorthogonalize=numeig > 1 or ctx.flip(),
            num_krylov_vecs=max(numeig, ctx.choice([n, n + 3, n + 20,
                                                    ctx.integers(1, n)])))
  if ctx.flip(0.5):
    kw["ndiag"] = ctx.choice([1, 2, 7])
  tol = 1e-8
  if ctx.flip(0.5):
    tol = kw["tol"] = ctx.choice([1e-12, 1e-5])
  given = ctx.flip(0.85)
  x0 = start(ctx, shape, dtype) if given else None
  if not given:
    kw.update(shape=shape, dtype=dtype)
  ctx.note(route, kw)
  ctx.sig(route, sorted((k, str(v)) for k, v in kw.items()), given)
  frozen = Frozen(x0=x0, args=args or [], m=m)
  vals, vecs = call(ctx, be, "eigsh_lanczos", mon, args, x0, route, **kw)
  vals = np.asarray(vals)
  frozen.verify(ctx, "eigsh_lanczos")
  mon.verify("eigsh_lanczos")
  w = np.linalg.eigvalsh(m.astype(np.complex128))
  scale = norm2(m)
  tol = eps(dtype)
  if not kw["reorthogonalize"] and drifts(m, mon.first, mon.calls):
    ctx.obs("drifted")
    for v in vecs:
      ctx.eq(tuple(to_np(v).shape), tuple(shape), "shape of an eigenvector")
    return
  ctx.check(len(vals) <= numeig, "more eigenvalues than requested")
  if mon.calls >= n or kw["num_krylov_vecs"] >= n:
    ctx.check(len(vals) >= 1, "no eigenvalues")
  # any Krylov dimension: Ritz values are Rayleigh quotients of the vectors
  for lam, v in zip(vals, vecs):
    v = to_np(v)
    ctx.eq(tuple(v.shape), tuple(shape), "shape of an eigenvector")
    ctx.eq(v.dtype, np.dtype(dtype), "dtype of an eigenvector")
    x = v.reshape(-1).astype(np.complex128)
    ctx.close(np.linalg.norm(x), 1.0, "norm of an eigenvector", tol=tol)
    ctx.close(np.vdot(x, m @ x) / scale, complex(lam) / scale,
              "Rayleigh quotient of an eigenvector", tol=tol * 30, shape=False)
    ctx.check(lam.real >= w[0] - tol * scale, "eigenvalue %s below the "
              "spectrum (%s)", lam, w[0])
  gaps = np.diff(w).min() if n > 1 else 1.0
  if kw["num_krylov_vecs"] >= n and gaps > 0.05 * scale / n:
    # stopped early: the residual goes with the root of the eigenvalue's change
    sloppy = kw.get("ndiag", 20) < n
    ptol = max(tol * 30, 1e-6)
    if sloppy:
      ptol = max(ptol, 30 * np.sqrt(kw.get("tol", 1e-8) / scale))
    if np.dtype(dtype) in (np.float32, np.complex64):
      ptol = max(ptol, 2e-2)
    pairs(ctx, vals, vecs, m, shape, dtype, "eigsh_lanczos", ptol, dtype)
    if not sloppy or numeig == 1:
      ctx.eq(len(vals), numeig, "number of eigenvalues")
      ctx.close(np.real(vals) / scale, w[:numeig] / scale,
                "lowest eigenvalues", tol=ptol)
    for i in range(len(vecs)):
      for j in range(i):
        o = abs(np.vdot(to_np(vecs[i]).reshape(-1), to_np(vecs[j]).reshape(-1)))
        ctx.check(o < 30 * ptol, "eigenvectors %d and %d overlap: %.3g", j, i, o)
    ctx.obs("complete_lanczos")
  else:
    ctx.obs("partial_lanczos")
  if given:
    again = call(ctx, be, "eigsh_lanczos", mon, args, x0, route, **kw)
    ctx.close(np.asarray(again[0]), vals, "repeated eigsh_lanczos", tol=1e-12)
    for a, b in zip(again[1], vecs):
      ctx.close(to_np(a), to_np(b), "repeated eigenvector", tol=1e-12)
    ctx.obs("repeats")


CRIT = {"LM": lambda z: -abs(z), "SM": abs, "LR": lambda z: -z.real,
        "SR": lambda z: z.real}


def eigs_case(ctx):
  be = backend_factory.get_backend("numpy")
  while True:
    fn, args, m, shape, dtype = numpy_problem(ctx, ctx.choice(
        ["general", "general", "hermitian"]))
    n = m.shape[0]
    if n >= 5:
      break
  route = ctx.choice(["backend", "linalg"])
  mon = Monitor(ctx, lift(fn, route), shape, dtype)
  numeig = ctx.integers(1, min(3, n - 3))
  which = ctx.choice(["LM", "LR", "SR", "LR"])
  kw = dict(numeig=numeig, which=which, num_krylov_vecs=n)
  if ctx.flip(0.5):
    kw["maxiter"] = 200
  if ctx.flip(0.3):
    kw["tol"] = ctx.choice([1e-10, 0.0])
  given = ctx.flip(0.85)
  x0 = start(ctx, shape, dtype) if given else None
  if not given:
    kw.update(shape=shape, dtype=dtype)
  ctx.note(route, kw)
  ctx.sig(route, sorted((k, str(v)) for k, v in kw.items()), given)
  frozen = Frozen(x0=x0, args=args or [], m=m)
  vals, vecs = call(ctx, be, "eigs", mon, args, x0, route, **kw)
  frozen.verify(ctx, "eigs")
  mon.verify("eigs")
  ctx.eq(len(vals), numeig, "number of eigenvalues")
  tol = 5e-3 if np.dtype(dtype) in (np.float32, np.complex64) else 1e-6
  pairs(ctx, vals, vecs, m, shape, dtype, "eigs", tol)
  extremal(ctx, np.asarray(vals), np.linalg.eigvals(m.astype(np.complex128)),
           which, norm2(m), tol)


def extremal(ctx, vals, w, which, scale, tol):
  """The values are the first ones by the criterion (ties allowed)."""
  key = CRIT[which]
  want = np.sort([key(z) for z in w])[:len(vals)]
  got = np.sort([key(z) for z in vals])
  ctx.close(got / scale, want / scale, "eigenvalues by criterion %s" % which,
            tol=max(tol * 10, 1e-5))
  # distinct members of the spectrum
  left = list(w)
  for z in vals:
    i = int(np.argmin([abs(z - y) for y in left]))
    ctx.check(abs(z - left[i]) < max(tol, 1e-5) * 30 * scale, "eigenvalue %s is "
              "not in the spectrum or returned twice", z)
    left.pop(i)
  ctx.obs("extremal")


def gmres_case(ctx):
  be = backend_factory.get_backend("numpy")
  fn, args, m, shape, dtype = numpy_problem(ctx, ctx.choice(
      ["conditioned", "conditioned", "general"]))
  n = m.shape[0]
  route = ctx.choice(["backend", "linalg"])
  b = start(ctx, shape, dtype)
  if ctx.flip(0.05):
    b = np.zeros(shape, dtype)
  x0 = start(ctx, shape, dtype) if ctx.flip() else None
  tol = ctx.choice([1e-2, 1e-4]) if np.dtype(dtype) in (
      np.float32, np.complex64) else ctx.choice([1e-3, 1e-5, 1e-9])
  kw = dict(tol=tol, num_krylov_vectors=ctx.choice([n, n, n + 5, 2, None]),
            maxiter=ctx.choice([1, 2, 10]))
  atol = None
  if ctx.flip(0.4):
    atol = kw["atol"] = ctx.choice([tol, 0.0, tol * 100])
  kwargs = {}
  if route == "backend" and args and ctx.flip(0.3):
    inner = fn
    pos = list(args)
    fn, args, kwargs = (lambda x, **k: inner(x, *[k["a%d" % i] for i in range(
        len(k))])), None, {"a%d" % i: a for i, a in enumerate(pos)}
    kw["A_kwargs"] = kwargs
  mon = Monitor(ctx, lift(fn, route), shape, dtype)
  if ctx.flip(0.1):
    kw["M"] = np.eye(n, dtype=dtype)
  ctx.note(route, {k: v for k, v in kw.items() if k not in ("A_kwargs", "M")})
  ctx.sig(route, tol, kw["num_krylov_vectors"], kw["maxiter"], atol,
          x0 is None, "M" in kw, bool(kwargs))
  frozen = Frozen(x0=x0, b=b, args=args or [], kwargs=kwargs)
  for rep in range(2):
    if route == "backend":
      x, info = be.gmres(mon, b, A_args=args, x0=x0, **kw)
    else:
      x, info = krylov.gmres(
          mon, tn.Tensor(b, backend=be), A_args=None if args is None else [
              tn.Tensor(a, backend=be) for a in args],
          x0=None if x0 is None else tn.Tensor(x0, backend=be), **kw)
      ctx.check(isinstance(x, tn.Tensor), "gmres result is no Tensor")
      x = x.array
    frozen.verify(ctx, "gmres")
    mon.verify("gmres")
    solution(ctx, x, info, m, b, tol, tol if atol is None else atol,
             kw["num_krylov_vectors"] or 20, n, dtype)
    if rep:
      ctx.close(x, first, "repeated gmres", tol=1e-12)
      ctx.obs("repeats")
    elif x0 is None and be.name != "numpy":
      break
    first = np.array(x)


def solution(ctx, x, info, m, b, tol, atol, nk, n, dtype):
  x = to_np(x)
  ctx.eq(tuple(x.shape), tuple(b.shape), "shape of the solution")
  ctx.eq(x.dtype, np.dtype(dtype), "dtype of the solution")
  r = np.linalg.norm(m @ x.reshape(-1) - b.reshape(-1))
  bound = max(tol * np.linalg.norm(b), atol)
  low = np.dtype(dtype) in (np.float32, np.complex64)
  slack = (1e-4 if low else 1e-11) * (np.linalg.norm(b) + norm2(m) *
                                      np.linalg.norm(x))
  if info == 0:
    ctx.check(r <= bound * 1.001 + slack, "gmres reports convergence with "
              "residual %.3g, tolerance %.3g", r, bound)
    ctx.obs("converged_gmres")
  else:
    ctx.check(info > 0, "gmres returned info=%s", info)
    ctx.obs("unconverged_gmres")
    cond = np.linalg.cond(m)
    if nk >= n and cond < 50 and bound > 1e-8 * (1 + np.linalg.norm(b)) and (
        not low):
      ctx.fail("gmres with a full Krylov space did not converge: residual "
               "%.3g, tolerance %.3g" % (r, bound))


# ----------------------------------------------------------------- symmetric
def sym_problem(ctx, kind):
  """Operator on charge-zero tensors, as a block-sparse tensor."""
  g = sym.group(ctx)
  dtype = ctx.choice([np.float64, np.complex128])
  for _ in range(100):
    k = ctx.choice([1, 2, 2, 3, 3])
    legs = [(sym.rand_q(ctx, g, ctx.choice([2, 3, 3, 4]), 1), ctx.flip())
            for _ in range(k)]
    msk = sym.mask(g, legs).reshape(-1)
    shape = [len(q) for q, _ in legs]
    if 2 <= msk.sum() <= 40 and np.prod(shape) <= 80:
      break
  else:
    raise core.Inconclusive("no suitable legs")
  part = sym.rand_part(ctx, k) if ctx.flip(0.4) else [1] * k
  n = int(np.prod(shape))
  charges = [sym.make_charge(ctx, g, q) for q, _ in legs]
  out = legs
  inn = [(q, not f) for q, f in legs]
  full = np.outer(msk, msk) | (~sym.mask(g, legs + inn).reshape(n, n) & False)
  ok = sym.mask(g, legs + inn).reshape(n, n)
  a = ctx.array((n, n), dtype)
  if kind == "hermitian":
    a = a + a.conj().T
  elif kind == "conditioned":
    a = a * 0.3 / np.sqrt(n) + np.eye(n)
  a = np.where(ok, a, 0)
  # legs of the operator carry the same grouping as the vectors
  H, _ = sym.make(ctx, g, out + inn, part + part, dtype,
                  a.reshape(shape + shape), charges + charges)
  m = a[np.ix_(msk, msk)]
  axes = (list(range(len(part), 2 * len(part))), list(range(len(part))))
  ctx.note(kind, "groups", g, "shape", shape, "part", part,
           np.dtype(dtype).name, "dim", int(msk.sum()))
  ctx.sig(kind, g, shape, part, np.dtype(dtype).char)

  def vec():
    t, model = sym.make(ctx, g, legs, part, dtype, None, charges)
    style = ctx.integers(0, 2)
    if style == 1 and len(part) > 1:  # non-contiguous storage
      p = ctx.perm(len(part))
      gr = model.groups()
      pl = [legs[i] for q in p for i in gr[q]]
      pc = [charges[i] for q in p for i in gr[q]]
      t2, m2 = sym.make(ctx, g, pl, [part[q] for q in p], dtype, None, pc)
      inv = [p.index(i) for i in range(len(p))]
      return t2.transpose(inv), m2.transpose(inv)
    return t, model

  style = ctx.integers(0, 2)
  if style == 0:
    fn, args = (lambda x, h: tn.block_sparse.tensordot(h, x, axes)), [H]
  elif style == 1:
    fn, args = (lambda x: tn.block_sparse.tensordot(H, x, axes)), None
  else:
    # result in another storage order
    back = list(reversed(range(len(part))))

    def fn(x, h):
      return tn.block_sparse.tensordot(h, x, axes).transpose(
          back, shuffle=True).transpose(back)

    args = [H]
  tshape = tuple(int(np.prod([shape[i] for i in gr])) for gr in sym.Model(
      g, legs, part, np.zeros(shape)).groups())
  return fn, args, m, tshape, dtype, msk, vec, H


def sparse_vector(ctx, v, msk, tshape, what):
  ctx.eq(tuple(int(s) for s in v.shape), tshape, what + ": shape")
  d = to_np(v).reshape(-1)
  ctx.check(not np.any(d[~msk]), "%s: charge-forbidden entries", what)
  return d[msk]


def sym_case(ctx):
  be = backend_factory.get_backend("symmetric")
  solver = ctx.choice(["eigsh_lanczos", "eigs", "gmres"])
  kind = {"eigsh_lanczos": "hermitian", "eigs": ctx.choice(
      ["general", "hermitian"]), "gmres": "conditioned"}[solver]
  while True:
    fn, args, m, tshape, dtype, msk, vec, H = sym_problem(ctx, kind)
    n = m.shape[0]
    if solver != "eigs" or n >= 5:
      break
  route = ctx.choice(["backend", "linalg"])
  mon = Monitor(ctx, lift(fn, route, "symmetric"), tshape, dtype)
  ctx.note(solver, route)
  ctx.sig(solver, route)
  scale = norm2(m)
  kw = {}
  if route == "backend":
    kw["enable_caching"] = ctx.flip()
  x0, _ = vec()
  if not np.any(x0.data):
    raise core.Inconclusive("empty start")
  if solver == "gmres":
    b, bm = vec()
    given = ctx.flip()
    tol = ctx.choice([1e-4, 1e-9])
    frozen = Frozen(b=b, x0=x0, H=H)
    kw.update(tol=tol, num_krylov_vectors=ctx.choice([None, n, 2]),
              maxiter=ctx.choice([1, 5]))
    nk = kw["num_krylov_vectors"] or min(b.size, 100)
    ctx.sig(tol, nk, kw["maxiter"])
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      if route == "backend":
        x, info = be.gmres(mon, b, A_args=args, x0=x0 if given else None, **kw)
      else:
        x, info = krylov.gmres(
            mon, tn.Tensor(b, backend=be), A_args=None if args is None else [
                tn.Tensor(a, backend=be) for a in args],
            x0=tn.Tensor(x0, backend=be) if given else None, **kw)
        x = x.array
    frozen.verify(ctx, "gmres")
    mon.verify("gmres")
    xd = sparse_vector(ctx, x, msk, tshape, "gmres")
    solution(ctx, xd, info, m, bm.dense.reshape(-1)[msk], tol, tol, nk, n,
             dtype)
    ctx.obs("symmetric_gmres")
    return
  frozen = Frozen(x0=x0, H=H)
  if solver == "eigsh_lanczos":
    numeig = min(n, ctx.choice([1, 1, 2, 3]))
    kw.update(numeig=numeig, reorthogonalize=numeig > 1 or ctx.flip(),
              num_krylov_vecs=n + ctx.choice([0, 2, 10]))
    if ctx.flip():
      kw["ndiag"] = ctx.choice([1, 3])
  else:
    numeig = ctx.integers(1, min(3, n - 3))
    which = ctx.choice(["LM", "LR", "SR"])
    kw.update(numeig=numeig, which=which, num_krylov_vecs=n)
  given = ctx.flip(0.8)
  if not given:
    kw.update(shape=tuple(x0.sparse_shape), dtype=dtype)
  ctx.sig(sorted((k, str(v)) for k, v in kw.items() if k not in (
      "shape", "dtype")), given)
  vals, vecs = call(ctx, be, solver, mon, args, x0 if given else None, route,
                    **kw)
  frozen.verify(ctx, solver)
  mon.verify(solver)
  w = np.linalg.eigvals(m)
  if solver == "eigsh_lanczos":
    if not kw["reorthogonalize"] and drifts(
        m, (mon.first if mon.first.size == msk.size else x0.todense().reshape(
            -1))[msk], mon.calls):
      ctx.obs("drifted")
      return
    w = np.sort(w.real)
  flat = [sparse_vector(ctx, v, msk, tshape, solver) for v in vecs]
  gaps = np.diff(w).min() if kind == "hermitian" and solver != "eigs" else 1.0
  if gaps < 1e-3 * scale:
    return
  pairs(ctx, vals, flat, m, (n,), dtype, solver, 1e-5,
        dtype if solver == "eigsh_lanczos" else None)
  ctx.eq(len(vals), numeig, "number of eigenvalues")
  if solver == "eigs":
    extremal(ctx, np.asarray(vals), w, which, scale, 1e-6)
  else:
    ctx.close(np.real(vals) / scale, w[:numeig] / scale, "lowest eigenvalues",
              tol=1e-5)
  ctx.obs("symmetric_" + solver)


# ------------------------------------------------------------------- history
def case_history(ctx):
  """One function object, varying arguments, shapes and solvers."""
  be = backend_factory.get_backend("numpy")

  def mv(x, a):
    k = x.ndim
    return np.tensordot(a, x, (list(range(k, 2 * k)), list(range(k))))

  def tmv(x, a):
    return tn.Tensor(mv(x.array, a.array), backend="numpy")

  class Op:

    def __init__(self, a):
      self.a = a

    def apply(self, x):
      return tmv(x, self.a)

    __call__ = apply

  def spelled(t, T):
    """The operator as some kind of callable, and its arguments."""
    kind = ctx.choice(["args", "args", "lambda", "default", "partial",
                       "method", "object", "state"])
    ctx.sig(kind)
    ctx.obs("operator_" + kind)
    t = T(t)
    if kind == "args":
      return tmv, [t]
    if kind == "lambda":
      return (lambda x: tmv(x, t)), ctx.choice([None, []])
    if kind == "default":
      def op(x, a=t):
        return tmv(x, a)
      return op, ctx.choice([None, []])
    if kind == "partial":
      return functools.partial(tmv, a=t), None
    if kind == "method":
      return Op(t).apply, None
    if kind == "object":
      return Op(t), None
    state[0] = t
    return smv, None

  state = [None]

  def smv(x):
    return tmv(x, state[0])

  steps = ctx.integers(2, 5)
  for s in range(steps):
    shape = ctx.choice([(4,), (6,), (2, 3), (3, 2), (2, 2, 2), (8,)])
    n = int(np.prod(shape))
    dtype = ctx.choice([np.float64, np.complex128])
    a = ctx.array((n, n), dtype)
    a = a + a.conj().T + 8 * np.diag(np.arange(n))
    a = a.astype(dtype)
    t = a.reshape(shape + shape)
    x0 = ctx.array(shape, dtype)
    solver = ctx.choice(["lanczos", "eigs", "gmres"])
    route = ctx.choice(["backend", "linalg", "linalg"])
    ctx.note(solver, route, shape, np.dtype(dtype).name)
    ctx.sig(solver, route, shape, np.dtype(dtype).char)
    T = lambda y: tn.Tensor(y, backend="numpy")
    if solver == "gmres":
      if route == "backend":
        x, info = be.gmres(mv, x0, A_args=[t], tol=1e-8, maxiter=20,
                           num_krylov_vectors=n)
      else:
        op, oargs = spelled(t, T)
        x, info = krylov.gmres(op, T(x0), A_args=oargs, tol=1e-8,
                               maxiter=20, num_krylov_vectors=n)
        x = x.array
      solution(ctx, x, info, a, x0, 1e-8, 1e-8, 1, n, dtype)
    elif solver == "eigs":
      if n < 6:
        continue
      kw = dict(numeig=2, which="LR", num_krylov_vecs=n)
      if route == "backend":
        vals, vecs = be.eigs(mv, [t], initial_state=x0, **kw)
      else:
        op, oargs = spelled(t, T)
        vals, vecs = krylov.eigs(op, args=oargs, x0=T(x0), maxiter=100, **kw)
        vecs = [v.array for v in vecs]
      pairs(ctx, vals, vecs, a, shape, dtype, "eigs", 1e-6)
      extremal(ctx, vals, np.linalg.eigvals(a), "LR", norm2(a), 1e-6)
    else:
      kw = dict(num_krylov_vecs=n, reorthogonalize=True)
      if route == "backend":
        vals, vecs = be.eigsh_lanczos(mv, [t], initial_state=x0, **kw)
      else:
        op, oargs = spelled(t, T)
        vals, vecs = krylov.eigsh_lanczos(op, args=oargs, x0=T(x0), **kw)
        vecs = [v.array for v in vecs]
      pairs(ctx, vals, vecs, a, shape, dtype, "lanczos", 1e-6, dtype)
      ctx.close(np.real(vals), np.linalg.eigvalsh(a)[:1], "lowest eigenvalue",
                tol=1e-6)
    ctx.obs("history_steps")


def case_invalid(ctx):
  kind = ctx.choice(["few", "reorth", "noshape", "type", "which", "eigs_few",
                     "x0shape", "x0dtype", "tol", "atol", "nk", "backends",
                     "notensor", "args", "nobackend", "notimpl"])
  name = ctx.choice(["numpy", "symmetric"])
  be = backend_factory.get_backend(name)
  if name == "symmetric":
    fn, args, m, shape, dtype, msk, vec, H = sym_problem(ctx, "hermitian")
    x0 = vec()[0]
    other = sym.make(ctx, [None], [(np.zeros((5, 1), int), False)], [1],
                     dtype)[0]
    od = np.float32 if dtype == np.float64 else np.complex64
    odd = x0.copy()
    odd.data = odd.data.astype(od)
  else:
    fn, args, m, shape, dtype = numpy_problem(ctx, "hermitian")
    x0 = ctx.array(shape, dtype)
    other = ctx.array(tuple(shape) + (2,), dtype)
    odd = x0.astype(np.float16)
  a = args
  T = lambda x, b=None: tn.Tensor(x, backend=b or name)
  ctx.sig(kind)
  ctx.note(kind, name)
  ctx.obs("invalid_" + kind)
  V = (ValueError,)
  if kind == "few":
    ctx.rejects(lambda: be.eigsh_lanczos(fn, a, x0, numeig=3, num_krylov_vecs=2,
                                         reorthogonalize=True),
                "fewer Krylov vectors than eigenvalues", V)
  elif kind == "reorth":
    ctx.rejects(lambda: be.eigsh_lanczos(fn, a, x0, numeig=2,
                                         num_krylov_vecs=10),
                "several eigenvalues without reorthogonalisation", V)
  elif kind == "noshape":
    f = getattr(be, ctx.choice(["eigsh_lanczos", "eigs"]))
    kw = ctx.choice([{}, {"dtype": dtype}, {"shape": shape}])
    ctx.rejects(lambda: f(fn, a, num_krylov_vecs=20, numeig=1, **kw),
                "no start vector and no shape/dtype", V)
  elif kind == "type":
    f = getattr(be, ctx.choice(["eigsh_lanczos", "eigs"]))
    bad = ctx.choice([[1.0, 2.0], 3, "x"])
    ctx.rejects(lambda: f(fn, a, initial_state=bad, num_krylov_vecs=20,
                          numeig=1), "a start vector of another type",
                (TypeError,))
  elif kind == "which":
    w = ctx.choice(["SI", "LI"])
    ctx.rejects(lambda: be.eigs(fn, a, x0, which=w, num_krylov_vecs=20,
                                numeig=1), "which=" + w, V)
  elif kind == "eigs_few":
    k = ctx.integers(1, 4)
    ctx.rejects(lambda: be.eigs(fn, a, x0, numeig=k, num_krylov_vecs=k +
                                ctx.integers(0, 1)), "too few Krylov vectors",
                V)
  elif kind == "x0shape":
    ctx.rejects(lambda: be.gmres(fn, x0, a, x0=other), "x0 of another shape", V)
  elif kind == "x0dtype":
    ctx.rejects(lambda: be.gmres(fn, x0, a, x0=odd), "x0 of another dtype",
                (TypeError,))
  elif kind == "tol":
    ctx.rejects(lambda: be.gmres(fn, x0, a, tol=-1e-3), "negative tol", V)
  elif kind == "atol":
    ctx.rejects(lambda: be.gmres(fn, x0, a, atol=-1e-3), "negative atol", V)
  elif kind == "nk":
    k = ctx.choice([0, -1])
    ctx.rejects(lambda: be.gmres(fn, x0, a, num_krylov_vectors=k),
                "num_krylov_vectors=%d" % k, V)
  elif kind == "backends":
    x = ctx.array((3,))
    ctx.rejects(lambda: krylov.eigsh_lanczos(lambda y: y, backend="jax",
                                             x0=T(x, "numpy")),
                "disagreeing backends", V)
  elif kind == "notensor":
    x = ctx.array((3,))
    f = ctx.choice([
        lambda: krylov.eigsh_lanczos(lambda y: y, backend="numpy", x0=x),
        lambda: krylov.eigs(lambda y: y, backend="numpy", x0=x),
        lambda: krylov.gmres(lambda y: y, x),
        lambda: krylov.gmres(lambda y: y, T(x, "numpy"), x0=x)])
    ctx.rejects(f, "an array instead of a Tensor", (TypeError,))
  elif kind == "args":
    x = ctx.array((3,))
    ctx.rejects(lambda: krylov.eigsh_lanczos(lambda y, z: y, x0=T(x, "numpy"),
                                             args=[x]),
                "an array among args", (TypeError,))
  elif kind == "nobackend":
    f = ctx.choice([krylov.eigsh_lanczos, krylov.eigs])
    ctx.rejects(lambda: f(lambda y: y, shape=(3,), dtype=np.float64),
                "neither backend nor x0", V)
  else:
    tf = backend_factory.get_backend("tensorflow")
    for meth in ("eigsh_lanczos", "eigs"):
      ctx.rejects(lambda meth=meth: getattr(tf, meth)(
          lambda y: y, [], tf.convert_to_tensor(np.ones(3))),
                  "tensorflow " + meth, (NotImplementedError,))


class _Slices:

  def __getitem__(self, key):
    return key


def jax_shim(jax):
  """The jax Krylov code uses names the installed jax no longer has; the
  equivalents are put in their place so that the code itself can run."""
  if not hasattr(jax, "ShapedArray"):
    jax.ShapedArray = jax.Array
  if not hasattr(jax.ops, "index"):
    jax.ops.index = _Slices()
    jax.ops.index_update = lambda x, i, y: x.at[i].set(y)
    jax.ops.index_add = lambda x, i, y: x.at[i].add(y)


def case_jax(ctx):
  jax = nets.setup_jax()
  import jax as jax_module
  jax_shim(jax_module)
  jnp = jax_module.numpy
  be = backend_factory.get_backend("jax")

  def mv(x, a):
    k = x.ndim
    return jnp.tensordot(a, x, (list(range(k, 2 * k)), list(range(k))))

  def tmv(x, a):
    return tn.Tensor(mv(x.array, a.array), backend="jax")

  T = lambda y: tn.Tensor(y, backend="jax")
  for _ in range(3):
    shape = ctx.choice([(6,), (2, 3), (3, 2)])
    dtype = ctx.choice([np.float64, np.complex128])
    n = 6
    a = ctx.array((n, n), dtype)
    a = (a + a.conj().T + 8 * np.diag(np.arange(n))).astype(dtype)
    t, x0 = jnp.array(a.reshape(shape + shape)), ctx.array(shape, dtype)
    # gmres: one full Krylov space over the reals; restarts and complex
    # rotations of the jax implementation are known not to work and cannot run
    # with the installed jax anyhow (see DESIGN.md)
    solver = ctx.choice(["lanczos", "gmres"] if dtype == np.float64 else
                        ["lanczos"])
    route = ctx.choice(["backend", "linalg"])
    ctx.note(solver, route, shape, np.dtype(dtype).name)
    ctx.sig(solver, route, shape, np.dtype(dtype).char)
    start_vec = jnp.array(x0)
    frozen = Frozen(x0=start_vec, t=t)
    if solver == "gmres":
      kw = dict(tol=1e-8, maxiter=1, num_krylov_vectors=n)
      if route == "backend":
        x, info = be.gmres(mv, start_vec, A_args=[t], **kw)
      else:
        x, info = krylov.gmres(tmv, T(start_vec), A_args=[T(t)], **kw)
        x = x.array
      solution(ctx, x, int(info), a, x0, 1e-8, 1e-8, n, n, dtype)
    else:
      ne = ctx.choice([1, 2])
      kw = dict(num_krylov_vecs=n, numeig=ne, reorthogonalize=True)
      if route == "backend":
        vals, vecs = be.eigsh_lanczos(mv, [t], initial_state=start_vec, **kw)
      else:
        vals, vecs = krylov.eigsh_lanczos(tmv, args=[T(t)], x0=T(start_vec),
                                          **kw)
        vecs = [v.array for v in vecs]
      pairs(ctx, vals, vecs, a, shape, dtype, "jax lanczos", 1e-6, dtype)
      ctx.close(np.real(np.asarray(vals)), np.linalg.eigvalsh(a)[:ne],
                "lowest eigenvalues", tol=1e-6)
    frozen.verify(ctx, "jax " + solver)
    ctx.obs("jax_steps")


CHECK = core.Check(
    "C20",
    [
        core.Group("lanczos", lanczos_case, 1200, 30000),
        core.Group("eigs", eigs_case, 500, 8000),
        core.Group("gmres", gmres_case, 900, 20000),
        core.Group("symmetric", sym_case, 900, 15000),
        core.Group("history", case_history, 300, 5000),
        core.Group("jax", case_jax, 32, 400),
        core.Group("invalid", case_invalid, 400, 3000),
    ],
    rule="residuals and spectra against dense linear algebra, every array the "
         "operator returned watched for changes; distinct by problem, shapes "
         "and options",
    required=("eigenpairs", "operator_calls", "complete_lanczos",
              "partial_lanczos", "extremal", "converged_gmres",
              "unconverged_gmres", "symmetric_gmres", "symmetric_eigs",
              "symmetric_eigsh_lanczos", "history_steps", "operator_lambda", "operator_state", "repeats",
              "jax_steps", "rejections"),
)
