"""C18: model MPOs are exactly the Hamiltonians they document."""
import numpy as np
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from tensornetwork.matrixproductstates import mpo as M

from tnv import core, nets
from tnv.dense import Frozen, to_np

SZ = np.diag([-0.5, 0.5])
SP = np.array([[0, 0], [1, 0]])  # raises index 0 (Sz=-1/2) to index 1
SM = SP.T
SX = (SP + SM) / 2
SY = (SP - SM) / 2j


def dense(m):
  """Matrix [out, in] contracted from the tensors (left, right, out, in)."""
  acc = to_np(m.tensors[0]).astype(np.complex128)
  for t in m.tensors[1:]:
    acc = np.einsum("lrab,rmcd->lmacbd", acc, to_np(t).astype(np.complex128))
    s = acc.shape
    acc = acc.reshape(s[0], s[1], s[2] * s[3], s[4] * s[5])
  return acc


def site(op, i, n):
  out = np.eye(1)
  for j in range(n):
    out = np.kron(out, op if i == j else np.eye(2))
  return out


def bond(a, b, i, n):
  return site(a, i, n) @ site(b, i + 1, n)


def fermions(n):
  c = np.array([[0, 1], [0, 0]])
  out = []
  for i in range(n):
    m = np.eye(1)
    for j in range(n):
      m = np.kron(m, c if j == i else np.diag([1, -1]) if j < i else np.eye(2))
    out.append(m)
  return out


def xxz(Jz, Jxy, Bz):
  n = len(Bz)
  h = np.zeros((2**n, 2**n), np.complex128)
  for i in range(n):
    h = h + Bz[i] * site(SZ, i, n)
  for i in range(n - 1):
    h = h + Jz[i] * bond(SZ, SZ, i, n) + Jxy[i] * (
        bond(SX, SX, i, n) + bond(SY, SY, i, n))
  return h


def tfi(Jx, Bz):
  n = len(Bz)
  h = np.zeros((2**n, 2**n), np.complex128)
  for i in range(n):
    h = h + Bz[i] * site(np.diag([-1, 1]), i, n)
  for i in range(n - 1):
    h = h + Jx[i] * bond(2 * SX, 2 * SX, i, n)
  return h


def free_fermions(t1, t2, v, N1, N2):
  """Sites numbered along the vertical direction first."""
  n = N1 * N2
  c = fermions(n)
  h = np.zeros((2**n, 2**n), np.complex128)
  for x in range(N2):
    for y in range(N1):
      i = x * N1 + y
      h = h + v * c[i].T @ c[i]
      if y + 1 < N1:
        h = h + t1 * (c[i].T @ c[i + 1] + c[i + 1].T @ c[i])
      if x + 1 < N2:
        j = i + N1
        h = h + t2 * (c[i].T @ c[j] + c[j].T @ c[i])
  return h


def couplings(ctx, n, cplx, dtype):
  kind = ctx.choice(["generic", "generic", "uniform", "zero", "ints", "sparse"])
  a = ctx.array((n,), np.complex128 if cplx else np.float64)
  if kind == "uniform":
    a = np.full(n, a[0] if n else 0)
  elif kind == "zero":
    a = a * 0
  elif kind == "ints":
    a = np.round(2 * a)
    if not cplx and ctx.flip():
      a = a.astype(np.int64)
  elif kind == "sparse":
    a = a * (ctx.rng.random(n) < 0.5)
  return a


def case_models(ctx):
  backend = ctx.choice(["numpy"] * 4 + ["tensorflow", "jax"])
  dtype = ctx.choice([np.float64, np.float64, np.complex128, np.complex128,
                      np.float32, np.complex64])
  cplx = np.dtype(dtype).kind == "c" and ctx.flip()
  model = ctx.choice(["xxz", "tfi", "ff", "ff"])
  name = ctx.choice([None, "model"])
  kw = {} if name is None else {"name": name}
  be = ctx.choice([backend, backend_factory.get_backend(backend)])
  if model == "ff":
    N1, N2 = ctx.choice([(a, b) for a in range(1, 9) for b in range(1, 9)
                         if a * b <= 8])
    t1, t2, v = [x.item() for x in couplings(ctx, 3, cplx, dtype)]
    n = N1 * N2
    ctx.note(model, N1, N2, t1, t2, v, np.dtype(dtype).name, backend)
    ctx.sig(model, N1, N2, np.dtype(dtype).char, backend)
    m = M.FiniteFreeFermion2D(t1, t2, v, N1, N2, dtype, backend=be, **kw)
    want = free_fermions(t1, t2, v, N1, N2)
    D = 2 * N1 + 2
    ctx.obs("fermion_grids")
    ctx.eq((m.t1, m.t2, m.v, m.N1, m.N2), (t1, t2, v, N1, N2), "attributes")
    if N1 > 1 and N2 > 1:
      ctx.obs("two_dimensional_grids")
  else:
    n = ctx.integers(2, 8)
    B = couplings(ctx, n, cplx, dtype)
    J1 = couplings(ctx, n - 1, cplx, dtype)
    J2 = couplings(ctx, n - 1, cplx, dtype)
    frozen = Frozen(B=B, J1=J1, J2=J2)
    ctx.note(model, n, np.dtype(dtype).name, backend)
    ctx.sig(model, n, np.dtype(dtype).char, backend, B.tolist())
    if model == "xxz":
      m = M.FiniteXXZ(J1, J2, B, dtype, backend=be, **kw)
      want = xxz(J1, J2, B)
      D = 5
    else:
      m = M.FiniteTFI(J1, B, dtype, backend=be, **kw)
      want = tfi(J1, B)
      D = 3
    frozen.verify(ctx, "the model constructor")
    ctx.obs(model + "_chains")
  got = dense(m)
  tol = 1e-5 if np.dtype(dtype) in (np.float32, np.complex64) else 1e-11
  ctx.eq(got.shape[:2], (1, 1), "MPO boundaries")
  ctx.close(got[0, 0], want, "%s as a matrix" % model, tol=tol)
  if not cplx:
    ctx.close(got[0, 0], got[0, 0].conj().T, "%s is not Hermitian" % model,
              tol=tol)
  ctx.eq(len(m), n, "length")
  ctx.eq([int(x) for x in m.bond_dimensions],
         [1] + [D] * (n - 1) + [1], "bond dimensions")
  shapes = [tuple(int(x) for x in t.shape) for t in m.tensors]
  ctx.eq([s[0] for s in shapes] + [shapes[-1][1]],
         [int(x) for x in m.bond_dimensions], "reported bond dimensions")
  ctx.check(all(s[2:] == (2, 2) for s in shapes), "physical dimensions %s",
            shapes)
  x = m.dtype
  ctx.eq(np.dtype(x.as_numpy_dtype if hasattr(x, "as_numpy_dtype") else x),
         np.dtype(dtype), "dtype")
  for t, u in zip(m, m.tensors):
    ctx.check(t is u, "iteration yields other tensors")
  ctx.eq(m.backend.name, backend, "backend")
  if name:
    ctx.eq(m.name, name, "name")
  # the default backend is used when none is given
  if ctx.flip(0.3):
    with tn.DefaultBackend(backend):
      m2 = M.FiniteTFI(np.ones(1), np.ones(2), np.float64)
    ctx.eq(m2.backend.name, backend, "default backend of a model")


def element(terms, bra, ket):
  """<bra| sum of coefficient times product of one-site matrices |ket>."""
  n = len(bra)
  diff = {i for i in range(n) if bra[i] != ket[i]}
  out = 0.0
  for coef, ops in terms:
    if not diff <= set(ops):
      continue
    x = coef
    for i, o in ops.items():
      x = x * o[bra[i], ket[i]]
    out += x
  return out


def hopping(i, j):
  """c_i^+ c_j and its conjugate for i < j as products of matrices."""
  c, z = np.array([[0, 1], [0, 0]]), np.diag([1, -1])
  mid = {k: z for k in range(i + 1, j)}
  return [{i: c.T @ z, **mid, j: c}, {i: z @ c, **mid, j: c.T}]


def case_long(ctx):
  """Systems too large for a matrix: matrix elements between basis states."""
  backend = ctx.choice(["numpy"] * 6 + ["tensorflow", "jax"])
  dtype = ctx.choice([np.float64, np.complex128])
  model = ctx.choice(["xxz", "tfi", "ff"])
  terms, moves = [], []
  if model == "ff":
    N1, N2 = ctx.choice([(a, b) for a in range(1, 21) for b in range(1, 21)
                         if 9 <= a * b <= 30])
    t1, t2, v = [x.item() for x in couplings(ctx, 3, False, dtype)]
    n = N1 * N2
    m = M.FiniteFreeFermion2D(t1, t2, v, N1, N2, dtype, backend=backend)
    for x in range(N2):
      for y in range(N1):
        i = x * N1 + y
        terms.append((v, {i: np.diag([0, 1])}))
        for ok, j, t in ((y + 1 < N1, i + 1, t1), (x + 1 < N2, i + N1, t2)):
          if ok:
            terms += [(t, o) for o in hopping(i, j)]
            moves.append((i, j))
    key = (N1, N2)
  else:
    n = ctx.integers(9, 40)
    B = couplings(ctx, n, False, dtype)
    J1 = couplings(ctx, n - 1, False, dtype)
    J2 = couplings(ctx, n - 1, False, dtype)
    if model == "xxz":
      m = M.FiniteXXZ(J1, J2, B, dtype, backend=backend)
      terms = [(B[i], {i: SZ}) for i in range(n)]
      for i in range(n - 1):
        terms += [(J1[i], {i: SZ, i + 1: SZ}), (J2[i], {i: SX, i + 1: SX}),
                  (J2[i], {i: SY, i + 1: SY})]
    else:
      m = M.FiniteTFI(J1, B, dtype, backend=backend)
      terms = [(B[i], {i: np.diag([-1, 1])}) for i in range(n)]
      terms += [(J1[i], {i: 2 * SX, i + 1: 2 * SX}) for i in range(n - 1)]
    moves = [(i, i + 1) for i in range(n - 1)]
    key = (n,)
  ctx.note(model, key, np.dtype(dtype).name, backend)
  ctx.sig(model, key, np.dtype(dtype).char, backend)
  ctx.eq(len(m), n, "length")
  ts = [to_np(t) for t in m.tensors]
  for k in range(60):
    ket = ctx.rng.integers(0, 2, size=n)
    bra = ket.copy()
    kind = ctx.integers(0, 3)
    if kind:
      i, j = ctx.choice(moves)
      if kind == 1 or model != "tfi" and kind == 2:
        ket[i], ket[j] = (0, 1) if ctx.flip() else (1, 0)
        bra[i], bra[j] = ket[j], ket[i]
      elif kind == 2:
        bra[i], bra[j] = 1 - ket[i], 1 - ket[j]
      else:
        for q in ctx.subset(range(n), ctx.integers(1, 3)):
          bra[q] = 1 - bra[q]
    row = np.eye(1)
    for t, a, b in zip(ts, bra, ket):
      row = row @ t[:, :, a, b]
    want = element(terms, bra, ket)
    ctx.close(row, np.array([[want]]), "%s of %s sites: element between %s "
              "and %s" % (model, key, bra.tolist(), ket.tolist()), tol=1e-10)
    if want != 0:
      ctx.obs("nonzero_elements")
  ctx.obs("long_models")


def case_lists(ctx):
  """Generic FiniteMPO / InfiniteMPO / BaseMPO from tensor lists."""
  backend = ctx.choice(["numpy"] * 3 + ["tensorflow", "jax"])
  n = ctx.integers(1, 5)
  D = [ctx.choice([1, 1, 2, 3, 5]) for _ in range(n + 1)]
  d = [ctx.integers(1, 3) for _ in range(n)]
  dtype = ctx.choice([np.float64, np.complex128, np.float32])
  cls = ctx.choice([M.FiniteMPO, M.FiniteMPO, M.InfiniteMPO, M.BaseMPO])
  if ctx.flip(0.6):
    D[0] = D[-1] = 1 if cls is M.FiniteMPO else D[0]
  ts = [ctx.array((D[i], D[i + 1], d[i], d[i]), dtype) for i in range(n)]
  mixed = n > 1 and ctx.flip(0.2)
  if mixed:
    i = ctx.integers(0, n - 1)
    ts[i] = ts[i].astype(ctx.choice(
        [x for x in (np.float64, np.complex128, np.float32) if x != dtype]))
  given = list(ts)
  frozen = Frozen(tensors=given)
  ctx.note(cls.__name__, D, d, np.dtype(dtype).name, "mixed", mixed, backend)
  ctx.sig(cls.__name__, D, d, np.dtype(dtype).char, mixed, backend)
  build = lambda: cls(given, backend=backend)
  if mixed:
    ctx.rejects(build, "mixed dtypes", (TypeError,))
    ctx.obs("mixed_dtypes")
    return
  ok = (cls is M.BaseMPO or
        (cls is M.FiniteMPO and D[0] == 1 and D[-1] == 1) or
        (cls is M.InfiniteMPO and D[0] == D[-1]))
  if not ok:
    ctx.rejects(build, "%s with boundary dimensions %d, %d" %
                (cls.__name__, D[0], D[-1]), (ValueError,))
    ctx.obs("bad_boundaries")
    return
  m = build()
  ctx.eq([int(x) for x in m.bond_dimensions], D, "bond dimensions")
  ctx.eq(len(m), n, "length")
  for i, t in enumerate(m):
    ctx.check(np.array_equal(to_np(t), ts[i]), "tensor %d changed", i)
  ctx.obs("accepted_lists")
  if cls is M.InfiniteMPO:
    order = list(range(n))
    for _ in range(ctx.integers(1, 4)):
      k = ctx.integers(-2 * n, 2 * n)
      m.roll(k)
      s = k % n
      order = order[s:] + order[:s]
      ctx.note("roll", k)
      ctx.eq(len(m), n, "length after roll(%d)" % k)
      for i, t in zip(order, m.tensors):
        ctx.check(np.array_equal(to_np(t), ts[i]),
                  "roll(%d): tensors are not in the order %s", k, order)
      ctx.eq([int(x) for x in m.bond_dimensions],
             [D[i] for i in order] + [D[order[-1] + 1]], "bonds after roll")
      ctx.obs("rolls")
  frozen.verify(ctx, cls.__name__)
  ctx.eq(len(given), n, "the list passed in")


CHECK = core.Check(
    "C18",
    [
        core.Group("models", case_models, 1200, 20000),
        core.Group("long", case_long, 160, 3000),
        core.Group("lists", case_lists, 800, 10000),
    ],
    rule="MPOs contracted to matrices and compared with independently built "
         "spin and Jordan-Wigner Hamiltonians; distinct by model, size, "
         "dtype, backend and couplings",
    setup=nets.setup_jax,
    required=("xxz_chains", "tfi_chains", "fermion_grids",
              "two_dimensional_grids", "accepted_lists", "bad_boundaries",
              "mixed_dtypes", "rolls", "long_models", "nonzero_elements"),
)
