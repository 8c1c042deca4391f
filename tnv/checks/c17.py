"""C17: canonicalising an infinite MPS preserves the uniform state."""
import numpy as np
import tensornetwork as tn
from tensornetwork import InfiniteMPS

from tnv import core, mps, nets
from tnv.dense import Frozen, to_np


def cell(m):
  return [to_np(m.get_tensor(i)).astype(np.complex128) for i in range(len(m))]


def transfer(ts):
  """Unit-cell transfer matrix with axes ((ket, bra) left, (ket, bra) right)."""
  D = ts[0].shape[0]
  x = np.eye(D * D, dtype=np.complex128).reshape(D, D, D, D)
  for t in ts:
    x = np.einsum("abcd,cpe,dpf->abef", x, t, t.conj())
  return x.reshape(D * D, -1)


def spectrum(ts):
  """(sorted |eigenvalues|, dominant eigenvalue, left, right) by dense eig."""
  E = transfer(ts)
  D = ts[0].shape[0]
  w, vr = np.linalg.eig(E)
  o = np.argsort(-np.abs(w))
  r = vr[:, o[0]].reshape(D, D)
  w2, vl = np.linalg.eig(E.T)
  l = vl[:, np.argmax(np.abs(w2))].reshape(D, D)
  r = r / np.trace(r)
  l = l / np.trace(l)
  return np.abs(w[o]), w[o[0]], l, r


def rdm(ts, start, k):
  """Normalised reduced density matrix of k consecutive sites."""
  n = len(ts)
  _, eta, l, r = spectrum(ts)
  # environments at the block's boundaries
  e = l
  for i in range(start):
    e = np.einsum("ab,apc,bpd->cd", e, ts[i], ts[i].conj())
  x = e[:, None, None, :]                      # ket, phys, phys', bra
  for j in range(start, start + k):
    t = ts[j % n]
    x = np.einsum("apqb,asc,btd->cpsqtd", x, t, t.conj())
    s = x.shape
    x = x.reshape(s[0], s[1] * s[2], s[3] * s[4], s[5])
  end = (start + k) % n
  f = r
  if end:
    for i in reversed(range(end, n)):
      f = np.einsum("apc,bpd,cd->ab", ts[i], ts[i].conj(), f)
  rho = np.einsum("apqb,ab->pq", x, f)
  return rho / np.trace(rho)


def rdms(ts, limit=40):
  out = {}
  n = len(ts)
  for start in range(n):
    size = 1
    for k in range(1, n + 3):
      size *= ts[(start + k - 1) % n].shape[1]
      if size > limit:
        break
      out[start, k] = rdm(ts, start, k)
  return out


def compare(ctx, ref, ts, what, tol):
  got = rdms(ts)
  for key in ref:
    ctx.close(got[key], ref[key], "%s: density matrix of %d sites from %d" %
              (what, key[1], key[0]), tol=tol)
    ctx.obs("density_matrices")


def gen(ctx, Dmax=5, backend="numpy"):
  """An injective, well-conditioned unit cell."""
  for _ in range(80):
    n = ctx.choice([1, 1, 2, 2, 3, 4])
    d = [ctx.choice([1, 2, 2, 3]) for _ in range(n)]
    D = [ctx.integers(1, Dmax) for _ in range(n)]
    D.append(D[0])
    dtype = ctx.choice([np.float64, np.complex128])
    ts = [ctx.array((D[i], d[i], D[i + 1]), dtype) for i in range(n)]
    kind = ctx.choice(["generic", "generic", "scaled", "product"])
    if kind == "scaled":
      ts = [t * 10.0**ctx.integers(-3, 3) for t in ts]
    if kind == "product":
      # nearly a product state: small Schmidt values
      ts = [t * (0.3**np.arange(t.shape[2])) for t in ts]
    s, eta, l, r = spectrum(ts)
    if len(s) > 1 and s[1] > 0.95 * s[0]:
      continue
    lam = schmidt(l, r)
    if lam[-1] < 1e-5:
      continue  # redundant bond: the inverse Schmidt values are not defined
    return d, D, dtype, kind, ts, lam
  raise core.Inconclusive("no injective unit cell")


def schmidt(l, r):
  """Schmidt values across the cell boundary from both fixed points."""
  w = np.linalg.eigvals(l.T @ r)
  s = np.sqrt(np.abs(np.sort(-np.abs(w))))
  s = np.sort(s)[::-1]
  return s / np.linalg.norm(s)


def case_canonicalize(ctx):
  d, D, dtype, kind, ts, lam = gen(ctx)
  n = len(ts)
  if ctx.flip(0.2):
    for t in ts:
      t.setflags(write=False)
  c = ctx.choice([None, 0, n - 1, ctx.integers(0, n - 1)])
  given = list(ts)
  frozen = Frozen(tensors=given)
  m = InfiniteMPS(given, center_position=c, backend="numpy")
  ctx.note(dtype.__name__, kind, d, D, "centre", c)
  ctx.sig(dtype.__name__, kind, d, D, c)
  if n == 1:
    ctx.obs("one_site_cells")
  if D[0] == 1:
    ctx.obs("bond_one")
  ref = rdms([t.astype(np.complex128) for t in ts])
  tol = 1e-6
  rounds = ctx.choice([1, 1, 2, 3])
  for k in range(rounds):
    if m.center_position is not None:
      for _ in range(ctx.integers(0, 2)):
        m.position(ctx.integers(0, n - 1), normalize=ctx.flip())
        compare(ctx, ref, cell(m), "position", tol)
        ctx.obs("moves")
    if k and ctx.flip(0.5):
      cur = cell(m)
      if ctx.flip():
        m.tensors[0] = m.tensors[0] * 2.0
      ctx.obs("recanonicalized")
    elif k:
      ctx.obs("recanonicalized")
    kw = {}
    if ctx.flip(0.3):
      kw["precision"] = 1e-12
    if ctx.flip(0.3):
      kw["D"] = D[0] + ctx.integers(0, 3)
    if ctx.flip(0.3):
      Dc = m.tensors[0].shape[0]
      kw["left_initial_state"] = ctx.array((Dc, Dc), dtype)
      kw["right_initial_state"] = ctx.array((Dc, Dc), dtype)
      ctx.obs("initial_states")
    fr2 = Frozen(kw=kw)
    ctx.note("canonicalize", sorted(kw))
    m.canonicalize(**kw)
    fr2.verify(ctx, "canonicalize")
    verify_canonical(ctx, m, lam, "canonicalize #%d" % (k + 1))
    compare(ctx, ref, cell(m), "canonicalize #%d" % (k + 1), tol)
    ctx.obs("canonicalized")
  frozen.verify(ctx, "canonicalize")


def verify_canonical(ctx, m, lam, what):
  n = len(m)
  ts = cell(m)
  tol = 1e-6
  ctx.eq(m.center_position, n - 1, what + ": centre")
  for i, t in enumerate(ts):
    a = t.reshape(-1, t.shape[2])
    ctx.close(a.conj().T @ a, np.eye(a.shape[1]), "%s: tensor %d is not "
              "left-isometric" % (what, i), tol=tol)
    dev = np.asarray(m.check_orthonormality("l", i))
    ctx.check(abs(dev) < 1e-5, "%s: check_orthonormality reports %s", what, dev)
  if n > 1:
    ctx.check(abs(np.asarray(m.check_canonical())) < 1e-5,
              "%s: check_canonical reports %s", what, m.check_canonical())
  s, eta, l, r = spectrum(ts)
  ctx.close(eta, 1.0, what + ": dominant eigenvalue", tol=tol, shape=False)
  # connector = inverse of the (normalised) Schmidt values
  conn = to_np(m.connector_matrix).astype(np.complex128)
  ctx.close(conn, np.diag(np.diag(conn)), what + ": connector is not diagonal",
            tol=1e-9)
  got = 1.0 / np.diag(conn)
  ctx.close(np.sort(np.abs(got))[::-1], lam, what + ": Schmidt values",
            tol=tol)
  ctx.close(got, np.abs(got), what + ": Schmidt values are positive", tol=1e-9)
  # the right fixed point is the squared Schmidt spectrum
  ctx.close(r, np.diag(np.abs(got)**2), what + ": right fixed point", tol=tol)
  want = [t.shape[0] for t in ts] + [ts[-1].shape[2]]
  ctx.eq([int(x) for x in m.bond_dimensions], want, what + ": bonds")


def case_eigs(ctx):
  """transfer_matrix_eigs returns the dominant eigenpair."""
  d, D, dtype, kind, ts, lam = gen(ctx)
  n = len(ts)
  m = InfiniteMPS(list(ts), center_position=ctx.choice([None, 0, n - 1]),
                  backend="numpy")
  stage = ctx.choice(["raw", "raw", "canonical", "connector"])
  if stage == "canonical":
    m.canonicalize()
    m.position(ctx.integers(0, n - 1))
  elif stage == "connector":
    # an arbitrary invertible connector
    c = ctx.array((D[0], D[0]), dtype) + 2 * np.eye(D[0])
    m = InfiniteMPS(list(ts), center_position=0, connector_matrix=c.astype(
        dtype), backend="numpy")
  ctx.note(dtype.__name__, kind, d, D, stage)
  snap = mps.snapshot(m)
  arrs = cell(m)
  s, eta, l, r = spectrum(arrs)
  if len(s) > 1 and s[1] > 0.97 * s[0]:
    return
  E = transfer(arrs)
  side = ctx.choice(["left", "right"])
  direction = ctx.choice({"left": [1, "l", "left"],
                          "right": [-1, "r", "right"]}[side])
  kw = {}
  if ctx.flip(0.4):
    init = ctx.array((D[0], D[0]), dtype)
    kw["initial_state"] = init if ctx.flip() else init.reshape(-1)
    ctx.obs("initial_states")
  if ctx.flip(0.3):
    kw["maxiter"] = 500
  if ctx.flip(0.3):
    kw["num_krylov_vecs"] = ctx.integers(10, 40)
  frozen = Frozen(kw=kw)
  ctx.note(direction, sorted(kw))
  ctx.sig(dtype.__name__, kind, d, D, stage, direction, sorted(kw))
  val, vec = m.transfer_matrix_eigs(direction, **kw)
  frozen.verify(ctx, "transfer_matrix_eigs")
  mps.untouched(ctx, m, snap, "transfer_matrix_eigs")
  vec = to_np(vec)
  val = complex(np.asarray(val))
  ctx.close(val / eta, 1.0, "dominant eigenvalue (%s)" % direction, tol=1e-7,
            shape=False)
  ctx.eq(vec.shape, (D[0], D[0]), "shape of the dominant eigenvector")
  nrm = np.linalg.norm(vec)
  ctx.check(nrm > 0, "eigenvector vanishes")
  v = vec.reshape(-1) / nrm
  res = (v @ E if side == "left" else E @ v) - val * v
  ctx.close(res / abs(val), np.zeros_like(res), "residual of the dominant "
            "eigenvector (%s)" % direction, tol=1e-5)
  ctx.obs("eigenpairs_" + side)
  ctx.obs("stage_" + stage)
  # the operator itself, on any matrix
  x = ctx.array((D[0], D[0]), dtype)
  fx = Frozen(x=x)
  got = to_np(m.unit_cell_transfer_operator(direction, x)).reshape(-1)
  want = x.reshape(-1) @ E if side == "left" else E @ x.reshape(-1)
  sc = max(np.abs(want).max(), 1e-300)
  ctx.close(got / sc, want / sc, "unit_cell_transfer_operator(%r)" % direction,
            tol=1e-8)
  fx.verify(ctx, "unit_cell_transfer_operator")
  # per-site operators compose to it
  if stage == "raw":
    y = x
    for i in (range(n) if side == "left" else reversed(range(n))):
      y = m.apply_transfer_operator(i, direction, y)
    ctx.close(to_np(y).reshape(-1) / sc, want / sc, "site by site", tol=1e-8)


def case_truncate(ctx):
  """A bond-dimension limit is respected; nothing else than the smallest
  Schmidt values is discarded."""
  d, D, dtype, kind, ts, lam = gen(ctx)
  n = len(ts)
  m = InfiniteMPS(list(ts), center_position=0, backend="numpy")
  limit = ctx.integers(1, max(1, D[0]))
  ctx.note(dtype.__name__, kind, d, D, "limit", limit)
  ctx.sig(dtype.__name__, kind, d, D, limit)
  m.canonicalize(D=limit)
  b = [int(x) for x in m.bond_dimensions]
  ctx.check(b[0] <= limit and b[-1] <= limit, "canonicalize(D=%d) left "
            "boundary bonds %s", limit, b)
  ctx.eq(b[0], b[-1], "boundary bonds")
  arrs = cell(m)
  for i in range(n - 1):
    ctx.eq(arrs[i].shape[2], arrs[i + 1].shape[0], "bond %d" % (i + 1))
  ctx.check(all(np.all(np.isfinite(t)) for t in arrs), "not finite")
  conn = to_np(m.connector_matrix)
  kept = lam[:limit] / np.linalg.norm(lam[:limit])
  ctx.close(np.sort(np.abs(1 / np.diag(conn)))[::-1], kept,
            "Schmidt values kept with D=%d" % limit, tol=1e-6)
  ctx.obs("limits")
  if limit < D[0]:
    ctx.obs("lossy_limits")
  for i in range(n - 1):
    a = arrs[i].reshape(-1, arrs[i].shape[2])
    ctx.close(a.conj().T @ a, np.eye(a.shape[1]), "tensor %d after truncation "
              "is not left-isometric" % i, tol=1e-6)
  ctx.eq(m.center_position, n - 1, "centre")


def case_redundant(ctx):
  """Bonds carrying more than the state needs are removed on request."""
  d, D, dtype, kind, ts, lam = gen(ctx, Dmax=3)
  n = len(ts)
  extra = ctx.integers(1, 2)
  # enlarge the boundary bond by an isometry: w^dagger w = 1
  w = np.linalg.qr(ctx.array((D[0] + extra, D[0]), dtype))[0]
  big = list(ts)
  big[-1] = np.einsum("apb,cb->apc", big[-1], w)
  big[0] = np.einsum("ca,apb->cpb", w.conj(), big[0])
  ref = rdms([t.astype(np.complex128) for t in ts])
  m = InfiniteMPS(big, center_position=0, backend="numpy")
  ctx.note(dtype.__name__, kind, d, D, "extra", extra)
  ctx.sig(dtype.__name__, kind, d, D, extra)
  m.canonicalize(truncation_threshold=1e-6, pseudo_inverse_cutoff=1e-11)
  ctx.eq(int(m.bond_dimensions[0]), D[0], "boundary bond after removing %d "
         "redundant dimensions" % extra)
  verify_canonical(ctx, m, lam, "redundant bond")
  compare(ctx, ref, cell(m), "redundant bond", 1e-5)
  ctx.obs("redundant_bonds")


def case_build(ctx):
  n = ctx.integers(1, 4)
  d = [ctx.integers(1, 3) for _ in range(n)]
  D = [ctx.integers(1, 4) for _ in range(n + 1)]
  good = ctx.flip()
  if good:
    D[-1] = D[0]
  dtype = ctx.choice([np.float64, np.complex128, np.float32, np.complex64])
  be = ctx.choice(["numpy", "tensorflow"])
  ctx.note(d, D, dtype.__name__, be)
  ctx.sig(d, D, dtype.__name__, be)
  if D[-1] != D[0]:
    ctx.rejects(lambda: InfiniteMPS.random(d=d, D=D, dtype=dtype, backend=be),
                "open unit cell", (ValueError,))
    ctx.obs("open_cells")
    return
  m = InfiniteMPS.random(d=d, D=D, dtype=dtype, backend=be)
  mps.bookkeeping(ctx, m, "random", dtype, d)
  ctx.eq([int(x) for x in m.bond_dimensions], D, "random: bonds")
  ctx.eq(m.center_position, 0, "random: centre")
  conn = ctx.array((D[0], D[0]), dtype)
  m2 = InfiniteMPS(list(m.tensors), center_position=0,
                   connector_matrix=m.backend.convert_to_tensor(conn),
                   backend=be)
  for i in range(n):
    want = to_np(m.tensors[i])
    if i == n - 1:
      want = np.tensordot(want, conn, 1)
    ctx.close(to_np(m2.get_tensor(i)), want, "get_tensor(%d)" % i,
              tol=mps.tolof(dtype))
  ctx.obs("cells_built")
  k = ctx.choice([n - 1, n + 2, n])
  if k != n:
    ctx.rejects(lambda: InfiniteMPS.random(d=[2] * k, D=D, dtype=dtype,
                                           backend=be), "wrong bond count",
                (ValueError,))


CHECK = core.Check(
    "C17",
    [
        core.Group("canonicalize", case_canonicalize, 300, 6000),
        core.Group("eigs", case_eigs, 500, 8000),
        core.Group("truncate", case_truncate, 250, 4000),
        core.Group("redundant", case_redundant, 150, 2500),
        core.Group("build", case_build, 200, 2000),
    ],
    rule="reduced density matrices, fixed points and Schmidt values of the "
         "uniform state by dense diagonalisation before and after; distinct "
         "by cell shape, options and history",
    required=("density_matrices", "canonicalized", "recanonicalized",
              "one_site_cells", "bond_one", "initial_states",
              "eigenpairs_left", "eigenpairs_right", "stage_canonical",
              "stage_connector", "limits", "lossy_limits",
              "redundant_bonds", "cells_built"),
)
