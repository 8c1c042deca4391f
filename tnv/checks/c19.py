"""C19: DMRG is variational, monotone and truthful about its energy."""
import contextlib
import io

import numpy as np
import tensornetwork as tn
from tensornetwork import FiniteMPS, FiniteDMRG
from tensornetwork.block_sparse import BlockSparseTensor, Index, U1Charge
from tensornetwork.matrixproductstates import mpo as M
from tensornetwork.matrixproductstates.dmrg import BaseDMRG

from tnv import core, mps, nets, sym
from tnv.checks import c18
from tnv.dense import Frozen, to_np


def quiet(fn, *args, **kw):
  with contextlib.redirect_stdout(io.StringIO()):
    return fn(*args, **kw)


def hermitian_mpo(ctx, d, Dmax, dtype):
  """Tensors of O + O^dagger for a random operator O with small bonds, plus
  nearest-neighbour structure half of the time."""
  n = len(d)
  D = [1] + [ctx.integers(1, Dmax) for _ in range(n - 1)] + [1]
  o = [ctx.array((D[i], D[i + 1], d[i], d[i]), dtype) / np.sqrt(
      D[i + 1] * d[i]) for i in range(n)]
  out = []
  for i in range(n):
    a = o[i]
    b = np.swapaxes(a, 2, 3).conj()
    l, r = D[i], D[i + 1]
    if n == 1:
      out.append((a + b).astype(dtype))
      continue
    if i == 0:
      w = np.concatenate([a, b], axis=1)
    elif i == n - 1:
      w = np.concatenate([a, b], axis=0)
    else:
      w = np.zeros((2 * l, 2 * r, d[i], d[i]), dtype)
      w[:l, :r] = a
      w[l:, r:] = b
    out.append(w.astype(dtype))
  return out


def symmetric_xxz(ctx, n):
  """(MPO tensors as block-sparse tensors, dense H, physical charges)."""
  Jz, Jxy, B = (ctx.array((k,)) for k in (n - 1, n - 1, n))
  m = M.FiniteXXZ(Jz, Jxy, B, np.float64, backend="numpy")
  bond = [0, -1, 1, 0, 0]
  out = []
  u = lambda q, f: Index(U1Charge(np.array(q, dtype=np.int16)), f)
  for i, t in enumerate(m.tensors):
    l = [0] if i == 0 else bond
    r = [0] if i == n - 1 else bond
    out.append(BlockSparseTensor.fromdense(
        [u(l, False), u(r, True), u([0, 1], False), u([0, 1], True)], t))
  return out, c18.dense(m)[0, 0], [np.array([[0], [1]])] * n


def setup_case(ctx, backend=None, minn=1, maxdim=300, full=False, maxn=6):
  """(mps, mpo, dense H, sector projector or None, description)."""
  backend = backend or ctx.choice(["numpy"] * 5 + ["symmetric"])
  if backend == "symmetric":
    n = ctx.integers(max(2, minn), maxn)
    W, H, q = symmetric_xxz(ctx, n)
    dtype = np.float64
    for _ in range(50):
      # full: bonds carry every reachable charge
      ts = full_symmetric(ctx, n) if full else mps.gen_symmetric(
          ctx, dtype, n, g=[None], phys=q, Dmax=5)[0]
      if np.linalg.norm(mps.chain([to_np(t) for t in ts])) > 1e-6:
        break
    else:
      raise core.Inconclusive("no state")
    mpo = M.FiniteMPO(W, backend="symmetric")
    desc = "xxz"
    d = [2] * n
  else:
    model = ctx.choice(["random", "random", "random", "xxz", "tfi", "ff",
                        "zero", "shifted"])
    dtype = ctx.choice([np.float64, np.complex128])
    while True:
      n = ctx.integers(minn if model in ("random", "zero", "shifted") else
                       max(2, minn), maxn)
      d = [ctx.choice([1, 2, 2, 2, 3]) for _ in range(n)]
      if model in ("xxz", "tfi", "ff"):
        d = [2] * n
      if np.prod(d) <= maxdim:
        break
    if model == "xxz":
      mpo = M.FiniteXXZ(ctx.array((n - 1,)), ctx.array((n - 1,)),
                        ctx.array((n,)), dtype, backend="numpy")
    elif model == "tfi":
      mpo = M.FiniteTFI(ctx.array((n - 1,)), ctx.array((n,)), dtype,
                        backend="numpy")
    elif model == "ff":
      N1, N2 = ctx.choice([(1, n), (n, 1)] + [(2, n // 2)] * (n % 2 == 0))
      mpo = M.FiniteFreeFermion2D(*[float(x) for x in ctx.array((3,))], N1, N2,
                                  dtype, backend="numpy")
    else:
      W = hermitian_mpo(ctx, d, 3, dtype)
      if model == "zero":
        W = [w * 0 for w in W]
      mpo = M.FiniteMPO(W, backend="numpy")
    D = []
    for i in range(1, n):
      top = min(int(np.prod(d[:i])), int(np.prod(d[i:])))
      D.append(top if full else ctx.integers(1, max(1, min(top + 1, 6))))
    bonds = [1] + D + [1]
    ts = [ctx.array((bonds[i], d[i], bonds[i + 1]), dtype) for i in range(n)]
    H = c18.dense(mpo)[0, 0]
    desc = model
  m = FiniteMPS(list(ts), backend=backend,
                center_position=ctx.choice([None] + list(range(n))))
  ctx.note(backend, desc, np.dtype(dtype).name, "d", d, "bonds",
           [int(x) for x in m.bond_dimensions], "mpo bonds",
           [int(x) for x in mpo.bond_dimensions], "centre", m.center_position)
  ctx.sig(backend, desc, np.dtype(dtype).char, d,
          [int(x) for x in m.bond_dimensions],
          [int(x) for x in mpo.bond_dimensions], m.center_position)
  ctx.obs("backend_" + backend)
  psi = mps.state(m).reshape(-1)
  sector = np.ones(len(H), bool)
  if backend == "symmetric":
    # the total charge of the state
    tot = np.zeros(1, int)
    for i in range(n):
      tot = (tot[:, None] + np.array([0, 1])[None]).reshape(-1)
    k = tot[np.argmax(np.abs(psi))]
    sector = tot == k
  return m, mpo, H, sector, dtype, d


def full_symmetric(ctx, n):
  """A symmetric MPS spanning a whole charge sector."""
  total = ctx.integers(0, n)
  bonds = [np.zeros((1, 1), int)]
  for i in range(1, n):
    left = np.zeros(1, int)
    for _ in range(i):
      left = (left[:, None] + np.array([0, 1])[None]).reshape(-1)
    right = np.zeros(1, int)
    for _ in range(n - i):
      right = (right[:, None] + np.array([0, 1])[None]).reshape(-1)
    q = []
    for v in np.unique(left):
      k = min(np.sum(left == v), np.sum(right == total - v))
      q += [v] * int(k)
    bonds.append(np.array(q, int)[:, None])
  bonds.append(np.array([[total]]))
  p = np.array([[0], [1]])
  return [sym.make(ctx, [None], [(bonds[i], False), (p, False),
                                 (bonds[i + 1], True)], [1, 1, 1],
                   np.float64)[0] for i in range(n)]


def energy_of(m, H):
  psi = mps.state(m).reshape(-1).astype(np.complex128)
  return np.vdot(psi, H @ psi) / np.vdot(psi, psi)


def left_env(m, mpo, site):
  e = np.ones((1, 1, 1), np.complex128)  # mpo, ket, bra
  for i in range(site):
    a = to_np(m.tensors[i]).astype(np.complex128)
    e = np.einsum("wab,apc,wvqp,bqd->vcd", e, a,
                  to_np(mpo.tensors[i]).astype(np.complex128), a.conj())
  return e


def right_env(m, mpo, site):
  e = np.ones((1, 1, 1), np.complex128)
  for i in reversed(range(site + 1, len(m))):
    a = to_np(m.tensors[i]).astype(np.complex128)
    e = np.einsum("apc,wvqp,bqd,vcd->wab", a,
                  to_np(mpo.tensors[i]).astype(np.complex128), a.conj(), e)
  return e


def check_envs(ctx, dmrg, what, neighbours=False):
  m, mpo = dmrg.mps, dmrg.mpo
  c = m.center_position
  for s in range(c + 1):
    if s in dmrg.left_envs:
      want = left_env(m, mpo, s)
      ctx.close(to_np(dmrg.left_envs[s]) / max(1, np.abs(want).max()),
                want / max(1, np.abs(want).max()),
                "%s: left environment at %d, centre %d" % (what, s, c),
                tol=1e-8)
      ctx.obs("environments")
  for s in range(c, len(m)):
    if s in dmrg.right_envs:
      want = right_env(m, mpo, s)
      ctx.close(to_np(dmrg.right_envs[s]) / max(1, np.abs(want).max()),
                want / max(1, np.abs(want).max()),
                "%s: right environment at %d, centre %d" % (what, s, c),
                tol=1e-8)
      ctx.obs("environments")
  ctx.check(c in dmrg.left_envs and c in dmrg.right_envs,
            "%s: environments of the centre %d are missing", what, c)


def real(e):
  return complex(np.asarray(to_np(e) if not np.isscalar(e) else e).reshape(()))


def after_run(ctx, m, H, sector, d, dtype, e, e0, before, scale, what,
              truncating=False):
  """Monitors of a finished run."""
  e = real(e)
  ctx.check(abs(e.imag) < 1e-8 * scale, "%s: complex energy %s", what, e)
  e = e.real
  ctx.close(np.linalg.norm(mps.state(m)), 1.0, what + ": norm of the state",
            tol=1e-8)
  mps.bookkeeping(ctx, m, what, dtype, d)
  mps.isometries(ctx, m, what, 1e-7)
  ex = energy_of(m, H).real
  if not truncating:
    ctx.close(e / scale, ex / scale, what + ": returned energy against the "
              "expectation value in the returned state", tol=1e-7, shape=False)
    ctx.obs("energies")
  ctx.check(ex >= e0 - 1e-8 * scale, "%s: expectation value %s below the ground "
            "energy %s", what, ex, e0)
  ctx.check(e >= e0 - 1e-7 * scale, "%s: energy %s below the ground energy %s",
            what, e, e0)
  ctx.obs("variational")
  if before is not None and not truncating:
    ctx.check(e <= before + 1e-7 * scale, "%s: energy rose from %s to %s", what,
              before, e)
    ctx.obs("monotone")
  return e


def ground(H, sector):
  return np.linalg.eigvalsh(H[np.ix_(sector, sector)])[0]


def case_long(ctx):
  """Chains of up to ten sites."""
  case_run(ctx, minn=7, maxn=10, maxdim=512)
  ctx.obs("long_runs")


def case_run(ctx, backend=None, **size):
  m, mpo, H, sector, dtype, d = setup_case(ctx, backend, **size)
  n = len(m)
  e0 = ground(H, sector)
  scale = max(1.0, np.abs(H).max())
  frozen = Frozen(mpo=list(mpo.tensors), mps=list(m.tensors))
  wlist = list(mpo.tensors)
  dm = FiniteDMRG(m, mpo)
  ctx.check(dm.mps is m and dm.mpo is mpo, "DMRG uses other objects")
  before = energy_of(m, H).real
  for r in range(ctx.integers(1, 3)):
    two = n > 1 and ctx.flip(0.5)
    kw = {"num_sweeps": ctx.choice([0, 1, 1, 2, 3]),
          "num_krylov_vecs": ctx.choice([2, 4, 10, 20])}
    if ctx.flip(0.3):
      kw["precision"] = ctx.choice([1e-2, 1e-10])
    if ctx.flip(0.3):
      kw["tol"] = ctx.choice([1e-3, 1e-12])
    if ctx.flip(0.3):
      kw["ndiag"] = ctx.choice([1, 3])
    if ctx.flip(0.3):
      kw["verbose"] = ctx.choice([0, 1, 2])
    if ctx.flip(0.2):
      m.position(ctx.integers(0, n - 1))
    truncating = False
    if two:
      top = max(int(np.sqrt(np.prod(d))) * 3, 1)
      D = ctx.choice([1, 2, 3, top, top, top])
      truncating = D < top
      ctx.note("two-site D=%d" % D, kw)
      ctx.sig("two", D, sorted(kw.items()))
      e = quiet(dm.run_two_site, D, **kw)
      if kw["num_sweeps"]:
        ctx.check(max(int(x) for x in m.bond_dimensions) <= D, "two-site DMRG "
                  "with max_bond_dim=%d left bonds %s", D, m.bond_dimensions)
      ctx.obs("two_site_runs")
    else:
      ctx.note("one-site", kw)
      ctx.sig("one", sorted(kw.items()))
      bonds = [int(x) for x in m.bond_dimensions]
      e = quiet(dm.run_one_site, **kw)
      ctx.check(all(int(a) <= b for a, b in zip(m.bond_dimensions, bonds)),
                "one-site DMRG enlarged bonds %s to %s", bonds,
                m.bond_dimensions)
      ctx.obs("one_site_runs")
    what = "run %d" % r
    if kw["num_sweeps"]:
      ctx.eq(m.center_position, 0, what + ": centre")
    e = after_run(ctx, m, H, sector, d, dtype, e, e0, before, scale, what,
                  truncating and kw["num_sweeps"] > 0)
    before = energy_of(m, H).real
    check_envs(ctx, dm, what)
    frozen.verify(ctx, "DMRG")
    ctx.check(all(a is b for a, b in zip(mpo.tensors, wlist)),
              "DMRG replaced MPO tensors")
    if ctx.flip(0.4):
      ce = real(dm.compute_energy()).real
      ctx.close(ce / scale, before / scale, "compute_energy", tol=1e-8,
                shape=False)
      ctx.obs("computed_energies")
      check_envs(ctx, dm, "compute_energy")


def case_converge(ctx, backend=None):
  """With sufficient bonds and Krylov vectors the exact energy is reached."""
  m, mpo, H, sector, dtype, d = setup_case(ctx, backend, maxdim=64, full=True)
  n = len(m)
  e0 = ground(H, sector)
  scale = max(1.0, np.abs(H).max())
  dm = FiniteDMRG(m, mpo)
  dim = int(np.sum(sector))
  two = n > 1 and ctx.flip()
  kw = dict(num_sweeps=12, precision=1e-13, num_krylov_vecs=min(dim + 5, 60),
            tol=1e-14, delta=1e-10)
  ctx.note("two-site" if two else "one-site")
  ctx.sig(two)
  e = quiet(dm.run_two_site, 200, **kw) if two else quiet(dm.run_one_site,
                                                          **kw)
  e = after_run(ctx, m, H, sector, d, dtype, e, e0, None, scale, "converged")
  ctx.close(e / scale, e0 / scale, "ground energy with full bonds (%s)" %
            ("two-site" if two else "one-site"), tol=1e-6, shape=False)
  ctx.obs("converged_two" if two else "converged_one")


def case_sweeps(ctx):
  """The energy as a function of the number of sweeps never increases."""
  m, mpo, H, sector, dtype, d = setup_case(ctx, minn=2)
  n = len(m)
  scale = max(1.0, np.abs(H).max())
  e0 = ground(H, sector)
  start = list(m.tensors)
  c = m.center_position
  last = energy_of(m, H).real
  two = ctx.flip(0.3)
  kk = ctx.choice([2, 3, 8])
  ctx.sig(two, kk)
  for k in range(1, ctx.integers(3, 5)):
    m2 = FiniteMPS(start, backend=m.backend, center_position=c)
    dm = FiniteDMRG(m2, mpo)
    kw = dict(num_sweeps=k, precision=0.0, num_krylov_vecs=kk, tol=1e-12)
    e = quiet(dm.run_two_site, 500, **kw) if two else quiet(
        dm.run_one_site, **kw)
    e = after_run(ctx, m2, H, sector, d, dtype, e, e0, last, scale,
                  "%d sweeps" % k)
    last = e
    ctx.obs("sweep_series")


def case_envs(ctx, backend=None):
  """Position histories keep the cached environments exact."""
  m, mpo, H, sector, dtype, d = setup_case(ctx, backend)
  n = len(m)
  frozen = Frozen(mpo=list(mpo.tensors), mps=list(m.tensors))
  dm = FiniteDMRG(m, mpo)
  order = ctx.flip()
  if order:
    dm.compute_left_envs()
    dm.compute_right_envs()
  else:
    dm.compute_right_envs()
    dm.compute_left_envs()
  check_envs(ctx, dm, "compute")
  c = m.center_position
  ctx.eq(sorted(dm.left_envs), list(range(c + 1)), "left environments")
  ctx.eq(sorted(dm.right_envs), list(range(c, n)), "right environments")
  psi = mps.state(m)
  for _ in range(ctx.integers(1, 6)):
    r = ctx.rng.random()
    if r < 0.75:
      s = ctx.integers(0, n - 1)
      ctx.note("position", s)
      ctx.sig(s)
      res = dm.position(s)
      ctx.eq(m.center_position, s, "centre after DMRG.position")
      ctx.obs("positions")
    elif r < 0.85:
      ctx.note("recompute")
      dm.compute_left_envs()
      dm.compute_right_envs()
    else:
      ctx.note("run")
      quiet(dm.run_one_site, num_sweeps=1, num_krylov_vecs=3)
      psi = mps.state(m)
    check_envs(ctx, dm, "history")
    ctx.close(mps.state(m), psi, "state during position history", tol=1e-8)
    # effective operators act as the projected Hamiltonian
    c = m.center_position
    x = m.tensors[c]
    got = to_np(dm.single_site_matvec(x, dm.left_envs[c], mpo.tensors[c],
                                      dm.right_envs[c]))
    L, R = left_env(m, mpo, c), right_env(m, mpo, c)
    want = np.einsum("wab,apc,wvqp,vcd->bqd", L, to_np(x),
                     to_np(mpo.tensors[c]), R)
    sc = max(1, np.abs(want).max())
    ctx.close(got / sc, want / sc, "single_site_matvec", tol=1e-8)
  for s in (-1, n, n + 3):
    ctx.rejects(lambda s=s: dm.position(s), "DMRG.position(%d)" % s,
                (IndexError,))
  frozen.verify(ctx, "DMRG environments")


def case_layers(ctx):
  """Two-site operator and layer updates on arbitrary tensors."""
  dtype = ctx.choice([np.float64, np.complex128])
  d1, d2 = ctx.integers(1, 3), ctx.integers(1, 3)
  D = [ctx.integers(1, 4) for _ in range(3)]
  W = [ctx.integers(1, 3) for _ in range(3)]
  mp = FiniteMPS([ctx.array((1, 2, 1), dtype)], backend="numpy")
  op = M.FiniteMPO([ctx.array((1, 1, 2, 2), dtype)], backend="numpy")
  dm = FiniteDMRG(mp, op)
  L = ctx.array((W[0], D[0], D[0]), dtype)
  R = ctx.array((W[2], D[2], D[2]), dtype)
  x = ctx.array((D[0], d1, d2, D[2]), dtype)
  w1 = ctx.array((W[0], W[1], d1, d1), dtype)
  w2 = ctx.array((W[1], W[2], d2, d2), dtype)
  fr = Frozen(L=L, R=R, x=x, w1=w1, w2=w2)
  ctx.sig(d1, d2, D, W)
  want = np.einsum("wab,apqc,wvsp,vutq,ucd->bstd", L, x, w1, w2, R)
  ctx.close(to_np(dm.two_site_matvec(x, L, w1, w2, R)), want,
            "two_site_matvec", tol=1e-9)
  a = ctx.array((D[0], d1, D[1]), dtype)
  ctx.close(to_np(dm.add_left_layer(L, a, w1)), np.einsum(
      "wab,apc,wvqp,bqd->vcd", L, a, w1, a.conj()), "add_left_layer", tol=1e-9)
  b = ctx.array((D[1], d2, D[2]), dtype)
  ctx.close(to_np(dm.add_right_layer(R, b, w2)), np.einsum(
      "apc,wvqp,bqd,vcd->wab", b, w2, b.conj(), R), "add_right_layer",
            tol=1e-9)
  fr.verify(ctx, "DMRG primitives")
  ctx.obs("primitives")


def case_invalid(ctx):
  n = ctx.integers(2, 4)
  d = [2] * n
  mk = lambda dt, be="numpy", k=n, can=True: FiniteMPS(
      [np.asarray(ctx.array((1 if i == 0 else 2, 2, 1 if i == k - 1 else 2),
                            dt)) for i in range(k)], backend=be,
      canonicalize=can)
  mo = lambda dt, be="numpy", k=n: M.FiniteTFI(
      np.ones(k - 1), np.ones(k), dt, backend=be)
  kind = ctx.choice(["backend", "dtype", "length", "canonical"])
  ctx.note(kind, n)
  ctx.sig(kind, n)
  ctx.obs("invalid_" + kind)
  if kind == "backend":
    ctx.rejects(lambda: FiniteDMRG(mk(np.float64), mo(np.float64,
                                                      "tensorflow")),
                "different backends", (TypeError,))
  elif kind == "dtype":
    a, b = ctx.choice([(np.float64, np.complex128), (np.complex128, np.float64),
                       (np.float32, np.float64)])
    ctx.rejects(lambda: FiniteDMRG(mk(a), mo(b)), "different dtypes",
                (TypeError,))
  elif kind == "length":
    k = ctx.choice([n - 1, n + 1]) if n > 2 else n + 1
    ctx.rejects(lambda: FiniteDMRG(mk(np.float64), mo(np.float64, k=k)),
                "different lengths", (ValueError,))
  else:
    ctx.rejects(lambda: FiniteDMRG(mk(np.float64, can=False), mo(np.float64)),
                "a non-canonical MPS", (ValueError,))


CHECK = core.Check(
    "C19",
    [
        core.Group("run", case_run, 500, 8000),
        core.Group("long", case_long, 64, 1200),
        core.Group("converge", case_converge, 160, 2500),
        core.Group("sweeps", case_sweeps, 120, 2000),
        core.Group("envs", case_envs, 400, 6000),
        core.Group("layers", case_layers, 200, 2000),
        core.Group("invalid", case_invalid, 150, 1000),
    ],
    rule="energies, states and environments compared with dense "
         "diagonalisation and from-scratch contraction; distinct by model, "
         "shapes, options and history",
    required=("long_runs", "energies", "variational", "monotone", "environments",
              "one_site_runs", "two_site_runs", "converged_one",
              "converged_two", "sweep_series", "positions", "primitives",
              "computed_energies", "backend_symmetric", "invalid_backend",
              "invalid_dtype", "invalid_length", "invalid_canonical"),
)
