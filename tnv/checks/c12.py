"""C12: block-sparse factorisations equal dense linear algebra sector by
sector."""
import warnings

import numpy as np
import tensornetwork.block_sparse as bs
from tensornetwork.backends import backend_factory

from tnv import core, sym
from tnv.checks.c05 import gen_matrix, plan_truncation, tolof
from tnv.dense import Frozen

DT = [np.float64, np.complex128, np.float64, np.complex128, np.float32,
      np.complex64]


def fill(ctx, g, rows, cols, dtype):
  """Dense matrix (rows x cols) with controlled spectra in every sector."""
  qr, qc = sym.total(g, rows), sym.total(g, cols)
  a = np.zeros((len(qr), len(qc)), dtype)
  kinds = set()
  for c in np.unique(qr, axis=0):
    r = np.nonzero(np.all(qr == c, axis=1))[0]
    k = np.nonzero(np.all(sym.reduce_mod(g, -qc) == c, axis=1))[0]
    if len(r) and len(k):
      blk, kind = gen_matrix(ctx, len(r), len(k), dtype)
      kinds.add(kind)
      a[np.ix_(r, k)] = blk
  return a, kinds


def build(ctx, g, rows, cols, dense2, axes=None):
  """Tensor over elementary legs rows+cols holding dense2, with a random
  internal layout, then fused into `axes` (lengths of the groups)."""
  legs = rows + cols
  d = dense2.reshape([len(q) for q, _ in legs])
  p = ctx.perm(len(legs)) if ctx.flip(0.6) else list(range(len(legs)))
  inv = list(np.argsort(p))
  t, m = sym.make(ctx, g, [legs[i] for i in p], [1] * len(legs), d.dtype,
                  np.transpose(d, p))
  t = t.transpose(inv, shuffle=ctx.flip(0.3)) if p != inv or p != sorted(
      p) else t
  m = m.transpose(inv)
  part = axes if axes is not None else [len(rows), len(cols)]
  m = m.regroup(part)
  if list(part) != [1] * len(legs):
    shape = m.shape
    t = t.reshape(shape)
    if [len(c) for c in t.charges] != list(part):
      raise core.Inconclusive("unit legs attributed to another axis")
  if ctx.flip(0.2):
    t = t.contiguous()
  return t, m


MANY = [False]


def _sectors(ctx, t_legs, g):
  qs = sym.total(g, t_legs)
  n = len(np.unique(qs, axis=0))
  ctx.check(n > 100, "workload: only %d sectors", n)
  ctx.obs("many_sector_matrices")


def gen_rect(ctx, dtype=None):
  if MANY[0]:
    g, rows, cols = sym.many(ctx)
    _sectors(ctx, rows, g)
    dtype = dtype or ctx.choice(DT[:4])
    a, kinds = fill(ctx, g, rows, cols, dtype)
    t, m = build(ctx, g, rows, cols, a)
    ctx.sig([str(x) for x in g], m.shape, m.part, np.dtype(dtype).char)
    ctx.note(g, m.shape, m.part, dtype)
    return g, rows, cols, t, m, dtype
  g = sym.group(ctx)
  nr, nc = ctx.choice([(1, 1)] * 4 + [(2, 1), (1, 2), (2, 2), (3, 1)])
  dims = ((1, 2, 3, 4, 6, 8) if nr + nc == 2 else (2, 2, 3))
  rows = sym.rand_legs(ctx, g, nr, dims, empty=0.03 if nr + nc == 2 else 0)
  cols = sym.rand_legs(ctx, g, nc, dims, empty=0.03 if nr + nc == 2 else 0)
  if ctx.flip(0.5):
    # more overlap between the two sides
    q, f = rows[0]
    if len(q):
      cols[0] = (q[ctx.rng.integers(0, len(q), size=ctx.integers(1, 6))], not f)
  dtype = dtype or ctx.choice(DT)
  a, kinds = fill(ctx, g, rows, cols, dtype)
  for k in kinds:
    ctx.stats.obs("spectrum_" + k)
  t, m = build(ctx, g, rows, cols, a)
  ctx.sig([str(x) for x in g], m.shape, m.part, np.dtype(dtype).char,
          sorted(kinds), int(np.count_nonzero(a)))
  ctx.note(g, m.shape, m.part, dtype, sorted(kinds))
  return g, rows, cols, t, m, dtype


def gen_square(ctx, dtype=None, hermitian=False):
  """Square matrix whose columns are dual to its rows."""
  if MANY[0]:
    g, rows, cols = sym.many(ctx, square=True)
    _sectors(ctx, rows, g)
  else:
    g = sym.group(ctx)
    n = ctx.choice([1, 1, 1, 2, 2])
    dims = (1, 2, 3, 5, 8) if n == 1 else (2, 2, 3)
    rows = sym.rand_legs(ctx, g, n, dims, empty=0.03 if n == 1 else 0)
    cols = [(q, not f) for q, f in rows]
  dtype = dtype or ctx.choice(DT)
  a, kinds = fill(ctx, g, rows, cols, dtype)
  if hermitian:
    a = ((a + a.conj().T) / 2).astype(dtype)
  t, m = build(ctx, g, rows, cols, a)
  ctx.sig([str(x) for x in g], m.shape, m.part, np.dtype(dtype).char,
          sorted(kinds), int(np.count_nonzero(a)))
  ctx.note(g, m.shape, m.part, dtype, sorted(kinds))
  return g, rows, t, m, dtype


def read(ctx, g, t, known, first, what, dtype, groups=None):
  """Checks that t carries the `known` legs next to one new bond leg (first or
  last), is charge conserving; returns its matrix with the bond last/first and
  the bond's (charges, flow)."""
  cs = [c for x in t.charges for c in x]
  fs = [bool(f) for x in t.flows for f in x]
  ctx.eq(len(cs), len(known) + 1, what + ": number of elementary legs")
  if groups is not None:
    want = ([1] + list(groups)) if first else (list(groups) + [1])
    ctx.eq([len(x) for x in t.charges], want, what + ": legs per axis")
  bq = np.asarray((cs[0] if first else cs[-1]).charges).astype(np.int64)
  bond = (bq, fs[0] if first else fs[-1])
  legs = ([bond] + known) if first else (known + [bond])
  part = [len(x) for x in t.charges]
  dense = np.asarray(t.todense())
  ctx.eq(np.dtype(t.dtype), np.dtype(dtype), what + ": dtype")
  m = sym.Model(g, legs, part, dense.reshape([len(q) for q, _ in legs]))
  ctx.eq(tuple(int(x) for x in t.shape), m.shape, what + ": shape")
  sym.check_meta(ctx, t, m, what)
  ctx.check(not np.any(m.dense[~sym.mask(g, legs)]),
            "%s: not charge conserving", what)
  # the stored data has exactly one number per symmetry-allowed element
  ctx.eq(int(t.data.size), int(np.count_nonzero(sym.mask(g, legs))),
         what + ": stored elements")
  D = len(bq)
  mat = m.dense.reshape((D, -1) if first else (-1, D)) if D else (
      np.zeros((D, int(np.prod([len(q) for q, _ in known]))), dense.dtype)
      if first else
      np.zeros((int(np.prod([len(q) for q, _ in known])), D), dense.dtype))
  ctx.obs("factors_verified")
  return mat, bond


def iso(ctx, mat, left, what, tol):
  g = mat.conj().T @ mat if left else mat @ mat.conj().T
  ctx.close(g, np.eye(len(g)), what + ": not isometric", tol=tol)
  ctx.obs("isometries")


def chargearray(ctx, g, s, what, dtype):
  ctx.eq(int(s.ndim), 1, what + ": ndim")
  ctx.eq(bool(s.flows[0][0]), False, what + ": flow")
  v = np.asarray(s.data)
  ctx.eq(v.dtype, np.dtype(dtype), what + ": dtype")
  q = np.asarray(s.charges[0][0].charges).astype(np.int64)
  ctx.eq(len(q), len(v), what + ": charges per value")
  return v, q


def real_of(dtype):
  return np.zeros(0, dtype).real.dtype


def same_spectrum(ctx, got, want, what, tol):
  """Sorted, equal up to zeros."""
  n = max(len(got), len(want))
  a, b = np.zeros(n), np.zeros(n)
  a[:len(got)] = np.sort(got)[::-1]
  b[:len(want)] = np.sort(want)[::-1]
  ctx.close(a, b, what, tol=tol)
  ctx.obs("spectra")


def sector_product(u, uq, s, sq, v, vq):
  """sum_c U_c[:, :k] diag(s_c) V_c[:k]."""
  out = np.zeros((u.shape[0], v.shape[1]), np.result_type(u, v))
  for c in np.unique(sq, axis=0):
    ss = s[np.all(sq == c, axis=1)]
    k = len(ss)
    uu = u[:, np.all(uq == c, axis=1)][:, :k]
    vv = v[np.all(vq == c, axis=1)][:k]
    out = out + (uu * ss) @ vv
  return out


def descending(ctx, s, sq, what):
  for c in np.unique(sq, axis=0):
    x = s[np.all(sq == c, axis=1)]
    ctx.check(np.all(np.diff(x) <= 1e-6 * (1 + np.abs(x[:-1]))),
              "%s: not descending in sector %s: %s", what, c, x)
  ctx.check(np.all(s >= 0), "%s: negative", what)


def case_svd(ctx):
  herm = ctx.flip(0.15)
  if herm:
    g, rows, t, m, dtype = gen_square(ctx, hermitian=True)
    cols = [(q, not f) for q, f in rows]
  else:
    g, rows, cols, t, m, dtype = gen_rect(ctx)
  tol = tolof(dtype)
  full = ctx.flip(0.4)
  fr = Frozen(t=t)
  a = m.todense()
  true = np.linalg.svd(a.astype(np.complex128), compute_uv=False)
  kw = {"full_matrices": full}
  if herm:
    kw["hermitian"] = True
  if ctx.flip(0.25):
    s = bs.svd(t, compute_uv=False, **kw)
    sv, sq = chargearray(ctx, g, s, "svd(compute_uv=False)", real_of(dtype))
    same_spectrum(ctx, sv, true, "singular values", tol)
    descending(ctx, sv, sq, "singular values")
    fr.verify(ctx, "svd")
    return
  u, s, v = bs.svd(t, **kw) if full or ctx.flip() else bs.svd(
      t, False, True, herm)
  um, (uq, uf) = read(ctx, g, u, rows, False, "svd U", dtype)
  vm, (vq, vf) = read(ctx, g, v, cols, True, "svd V", dtype)
  sv, sq = chargearray(ctx, g, s, "svd S", real_of(dtype))
  iso(ctx, um, True, "svd U", tol)
  if not herm or (len(true) and true[-1] > 1e-3 * true[0]):
    # numpy's hermitian svd leaves null rows of V empty
    iso(ctx, vm, False, "svd V", tol)
  same_spectrum(ctx, sv, true, "singular values", tol)
  descending(ctx, sv, sq, "singular values")
  ctx.eq(uf, True, "flow of U's bond")
  ctx.eq(vf, False, "flow of V's bond")
  ctx.close(sector_product(um, uq, sv, sq, vm, vq), a, "U S V", tol=tol)
  if not full:
    ctx.check(np.array_equal(uq, sq) and np.array_equal(vq, sq),
              "the factors' bond charges differ")
    res = bs.tensordot(bs.tensordot(u, bs.diag(s), ([1], [0])), v, ([1], [0]))
    sym.verify(ctx, res, m.with_dense(m.dense), "U diag(S) V", dtype) \
        if tol < 1e-6 else ctx.close(np.asarray(res.todense()), a,
                                     "U diag(S) V", tol=tol)
    ctx.obs("products")
  else:
    ctx.obs("full_svds")
  fr.verify(ctx, "svd")


def case_qr(ctx):
  g, rows, cols, t, m, dtype = gen_rect(ctx)
  tol = tolof(dtype)
  fr = Frozen(t=t)
  a = m.todense()
  mode = ctx.choice([None, "reduced", "complete", "r"])
  if mode == "r":
    r = bs.qr(t, mode)
    rm, (rq, _) = read(ctx, g, r, cols, True, "qr R", dtype)
    ctx.close(rm.conj().T @ rm, a.conj().T @ a, "R^H R", tol=10 * tol)
  else:
    q, r = bs.qr(t) if mode is None else bs.qr(t, mode=mode)
    qm, (qq, qf) = read(ctx, g, q, rows, False, "qr Q", dtype)
    rm, (rq, rf) = read(ctx, g, r, cols, True, "qr R", dtype)
    iso(ctx, qm, True, "qr Q", tol)
    ctx.check(np.array_equal(qq, rq) and qf != rf, "qr bonds differ")
    ctx.close(qm @ rm, a, "Q R", tol=tol)
    res = bs.tensordot(q, r, ([1], [0]))
    ctx.close(np.asarray(res.todense()), a, "Q R (block sparse)", tol=tol)
    sym.check_meta(ctx, res, m, "Q R")
    ctx.obs("products")
    ctx.obs("qr_" + str(mode))
  qc = sym.reduce_mod(g, -sym.total(g, cols))
  for c in np.unique(rq, axis=0):
    blk = rm[np.all(rq == c, axis=1)][:, np.all(qc == c, axis=1)]
    ctx.close(np.tril(blk, -1), np.zeros_like(blk), "R upper triangular",
              tol=tol)
  fr.verify(ctx, "qr")


def case_eigh(ctx):
  g, rows, t, m, dtype = gen_square(ctx, hermitian=ctx.flip(0.7))
  tol = 10 * tolof(dtype)
  a = m.todense()
  fr = Frozen(t=t)
  uplo = ctx.choice([None, "L", "U"])
  low = uplo != "U"
  h = np.tril(a) + np.tril(a, -1).conj().T if low else \
      np.triu(a) + np.triu(a, 1).conj().T
  if a.size and np.iscomplexobj(h):
    h[np.diag_indices(len(h))] = h.diagonal().real
  e, v = bs.eigh(t) if uplo is None else bs.eigh(t, uplo)
  ev, eq = chargearray(ctx, g, e, "eigh E", real_of(dtype))
  vm, (vq, vf) = read(ctx, g, v, rows, False, "eigh V", dtype)
  ctx.check(np.array_equal(vq, eq), "eigh: charges of E and V differ")
  ctx.eq(vf, True, "eigh: flow of the eigenvector leg")
  iso(ctx, vm, True, "eigh V", tol)
  ctx.close(h @ vm, vm * ev, "H V = V E", tol=tol)
  # all symmetric sectors of a dual square matrix are covered
  ctx.eq(len(ev), len(a), "number of eigenvalues")
  ctx.close(np.sort(ev), np.linalg.eigvalsh(h) if len(h) else np.zeros(0),
            "eigh spectrum", tol=tol)
  if np.allclose(h, a):
    left = bs.tensordot(t, v, ([1], [0]))
    right = bs.tensordot(v, bs.diag(e), ([1], [0]))
    ctx.close(np.asarray(left.todense()), np.asarray(right.todense()),
              "H V = V diag(E)", tol=tol)
    ctx.obs("products")
  ctx.obs("eighs")
  fr.verify(ctx, "eigh")


def case_eig(ctx):
  dtype = ctx.choice([np.float64, np.complex128])
  g = sym.group(ctx)
  n = ctx.choice([1, 1, 1, 2])
  dims = (1, 2, 3, 5, 7) if n == 1 else (2, 2, 3)
  rows = sym.rand_legs(ctx, g, n, dims)
  if n > 1 and any(len(q) == 0 for q, _ in rows):
    raise core.Inconclusive("empty fused leg")
  cols = [(q, not f) for q, f in rows]
  d = int(np.prod([len(q) for q, _ in rows]))
  a = np.where(sym.mask(g, rows + cols).reshape(d, d),
               ctx.array((d, d), dtype), 0).astype(dtype)
  t, m = build(ctx, g, rows, cols, a)
  ctx.sig([str(x) for x in g], m.shape, m.part, np.dtype(dtype).char)
  fr = Frozen(t=t)
  e, v = bs.eig(t)
  ev, eq = np.asarray(e.data), np.asarray(e.charges[0][0].charges)
  vm, (vq, _) = read(ctx, g, v, rows, False, "eig V", v.dtype)
  ctx.check(np.array_equal(vq, eq), "eig: charges of E and V differ")
  ctx.eq(len(ev), d, "number of eigenvalues")
  ctx.close(a @ vm, vm * ev, "A V = V E", tol=1e-8)
  ctx.close(np.linalg.norm(vm, axis=0), np.ones(d), "eig normalisation")
  want = np.linalg.eigvals(a) if d else np.zeros(0)
  ctx.close(np.poly(ev) if d else 0, np.poly(want) if d else 0,
            "eig spectrum", tol=1e-6)
  left = bs.tensordot(t, v, ([1], [0]))
  right = bs.tensordot(v, bs.diag(e), ([1], [0]))
  ctx.close(np.asarray(left.todense()), np.asarray(right.todense()),
            "A V = V diag(E)", tol=1e-8)
  ctx.obs("eigs")
  fr.verify(ctx, "eig")


def case_inv(ctx):
  dtype = ctx.choice([np.float64, np.complex128, np.float32])
  tol = 1e-3 if dtype == np.float32 else 1e-8
  if ctx.flip(0.5):
    # inverse: rows and columns with equal sectors, in different order
    g = sym.group(ctx)
    n = ctx.choice([1, 1, 1, 2])
    dims = (1, 2, 3, 5, 7) if n == 1 else (2, 2, 3)
    rows = sym.rand_legs(ctx, g, n, dims, empty=0.04 if n == 1 else 0)
    cols = [(q, not f) for q, f in rows]
    if n == 1 and len(rows[0][0]):
      cols = [(rows[0][0][ctx.perm(len(rows[0][0]))], not rows[0][1])]
    elif n == 2 and ctx.flip():
      cols = cols[::-1]
    qr = sym.total(g, rows)
    qc = sym.reduce_mod(g, -sym.total(g, cols))
    a = np.zeros((len(qr), len(qc)), dtype)
    for c in np.unique(qr, axis=0):
      r = np.nonzero(np.all(qr == c, axis=1))[0]
      k = np.nonzero(np.all(qc == c, axis=1))[0]
      assert len(r) == len(k)
      b = ctx.array((len(r), len(r)), dtype)
      b = np.linalg.qr(b)[0] * ctx.rng.uniform(0.5, 3, size=len(r)) + 0.05 * b
      a[np.ix_(r, k)] = b
    t, m = build(ctx, g, rows, cols, a)
    ctx.sig([str(x) for x in g], m.shape, m.part, np.dtype(dtype).char, "inv")
    fr = Frozen(t=t)
    x = bs.inv(t)
    want = np.linalg.inv(a.astype(np.complex128))
    ctx.obs("inverses")
  else:
    g, rows, cols, t, m, dtype = gen_rect(ctx, dtype)
    fr = Frozen(t=t)
    a = m.todense()
    s = np.linalg.svd(a.astype(np.complex128), compute_uv=False)
    smax = s[0] if len(s) else 0
    cut = 1e-4 * smax if dtype == np.float32 else 1e-8 * smax
    if np.any((s > 0) & (s > cut * 1e-2) & (s < cut * 1e2)) or \
        (s[s > cut].min(initial=1.0) < 1e-3 and dtype == np.float32):
      raise core.Inconclusive("spectrum touches the cut-off")
    # the cut-off is relative to each sector's largest value, so rank has to be
    # unambiguous in every sector
    qr, qc = sym.total(g, rows), sym.reduce_mod(g, -sym.total(g, cols))
    rc = 1e-4 if dtype == np.float32 else 1e-8
    want = np.zeros(a.shape[::-1], np.complex128)
    for c in np.unique(qr, axis=0):
      r = np.nonzero(np.all(qr == c, axis=1))[0]
      k = np.nonzero(np.all(qc == c, axis=1))[0]
      if len(r) and len(k):
        b = a[np.ix_(r, k)].astype(np.complex128)
        ss = np.linalg.svd(b, compute_uv=False)
        if np.any((ss > rc * 1e-2 * ss[0]) & (ss < rc * 1e2 * ss[0])):
          raise core.Inconclusive("sector spectrum touches the cut-off")
        want[np.ix_(k, r)] = np.linalg.pinv(b, rcond=rc)
    x = bs.pinv(t, rcond=rc)
    tol = tol * max(1.0, float(np.abs(want).max(initial=0)) *
                    float(np.abs(a).max(initial=0)))
    ctx.obs("pseudo_inverses")
  mm = sym.Model(m.g, [(q, not f) for q, f in cols + rows],
                 [len(cols), len(rows)], want.reshape(
                     [len(q) for q, _ in cols + rows]))
  sym.check_meta(ctx, x, mm, "inverse")
  ctx.eq(tuple(int(k) for k in x.shape), mm.shape, "inverse: shape")
  ctx.eq(np.dtype(x.dtype), np.dtype(dtype), "inverse: dtype")
  ctx.close(np.asarray(x.todense()), want, "inverse", tol=tol)
  # contraction with the original is accepted and gives the projector
  if 0 not in m.shape:
    p = bs.tensordot(t, x, ([1], [0]))
    ctx.close(np.asarray(p.todense()), a @ want, "A A^-1", tol=tol)
    ctx.obs("products")
  fr.verify(ctx, "inv")


def _tensor(ctx, dtype):
  """Rank >= 2 tensor with possibly fused axes and a pivot."""
  if MANY[0]:
    g, rows, cols = sym.many(ctx)
    _sectors(ctx, rows, g)
    lp, rp = sym.rand_part(ctx, len(rows)), [1]
    a, _ = fill(ctx, g, rows, cols, dtype)
    t, m = build(ctx, g, rows, cols, a, lp + rp)
    ctx.sig([str(x) for x in g], m.shape, m.part, len(lp),
            np.dtype(dtype).char)
    ctx.note(g, m.shape, m.part, "pivot", len(lp), dtype)
    return g, rows, cols, lp, rp, t, m, a
  g = sym.group(ctx)
  nl, nr = ctx.choice([(1, 1), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3)])
  dims = (1, 2, 3, 5, 7) if nl + nr == 2 else (1, 2, 2, 3)
  rows = sym.rand_legs(ctx, g, nl, dims, empty=0)
  cols = sym.rand_legs(ctx, g, nr, dims, empty=0)
  if ctx.flip(0.5):
    q, f = rows[0]
    cols[0] = (q[ctx.rng.integers(0, len(q), size=ctx.integers(1, 5))], not f)
  lp, rp = sym.rand_part(ctx, nl), sym.rand_part(ctx, nr)
  a, kinds = fill(ctx, g, rows, cols, dtype)
  t, m = build(ctx, g, rows, cols, a, lp + rp)
  ctx.sig([str(x) for x in g], m.shape, m.part, len(lp), np.dtype(dtype).char,
          sorted(kinds), int(np.count_nonzero(a)))
  ctx.note(g, m.shape, m.part, "pivot", len(lp), dtype, sorted(kinds))
  return g, rows, cols, lp, rp, t, m, a


BE = None


def _be():
  return backend_factory.get_backend("symmetric")


def case_backend_svd(ctx):
  dtype = ctx.choice(DT)
  tol = tolof(dtype)
  g, rows, cols, lp, rp, t, m, a = _tensor(ctx, dtype)
  qr, qc = sym.total(g, rows), sym.reduce_mod(g, -sym.total(g, cols))
  sectors = {}
  for c in np.unique(qr, axis=0):
    r = np.nonzero(np.all(qr == c, axis=1))[0]
    k = np.nonzero(np.all(qc == c, axis=1))[0]
    if len(r) and len(k):
      sectors[tuple(c)] = np.linalg.svd(
          a[np.ix_(r, k)].astype(np.complex128), compute_uv=False)
  s_all = np.sort(np.concatenate(list(sectors.values()) or [np.zeros(0)]))[::-1]
  kw, keep = {}, len(s_all)
  if len(s_all):
    kw, keep, _ = plan_truncation(ctx, s_all)
    if ctx.flip(0.03):
      kw["max_singular_values"], keep = 0, 0
  elif ctx.flip():
    kw = ctx.choice([{"max_singular_values": 2}, {"max_truncation_error": 0.1},
                     {"max_truncation_error": 0.1, "relative": True}])
  ctx.note(kw, "keep", keep, "of", len(s_all))
  fr = Frozen(t=t)
  pivot = len(lp) if ctx.flip(0.7) else len(lp) - len(lp + rp)
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    u, s, v, disc = _be().svd(t, pivot, **kw)
  um, (uq, uf) = read(ctx, g, u, rows, False, "svd U", dtype, lp)
  vm, (vq, vf) = read(ctx, g, v, cols, True, "svd V", dtype, rp)
  sv, sq = chargearray(ctx, g, s, "svd S", real_of(dtype))
  iso(ctx, um, True, "svd U", tol)
  iso(ctx, vm, False, "svd V", tol)
  descending(ctx, sv, sq, "singular values")
  dv = np.asarray(disc.data) if hasattr(disc, "data") and hasattr(
      disc, "charges") else np.asarray(disc)
  ctx.eq(len(sv), keep, "number of kept singular values (%s)" % kw)
  ctx.close(np.sort(sv)[::-1], s_all[:keep], "kept singular values", tol=tol)
  ctx.close(np.sort(dv)[::-1], s_all[keep:], "discarded singular values",
            tol=tol)
  ctx.eq(np.asarray(dv).dtype, real_of(dtype), "dtype of discarded values")
  if len(dv):
    dq = np.asarray(disc.charges[0][0].charges).astype(np.int64)
    for c in np.unique(np.concatenate([sq, dq]), axis=0):
      both = np.concatenate([sv[np.all(sq == c, axis=1)],
                             dv[np.all(dq == c, axis=1)]])
      ctx.close(np.sort(both)[::-1], sectors[tuple(c)],
                "singular values of sector %s" % (c,), tol=tol)
  ctx.check(np.array_equal(uq, sq) and np.array_equal(vq, sq) and uf and
            not vf, "the factors' bond charges differ")
  ctx.close(um.conj().T @ a @ vm.conj().T, np.diag(sv), "U^H A V^H = S",
            tol=tol)
  res = (um * sv) @ vm
  ctx.close(np.linalg.norm(a - res), np.linalg.norm(s_all[keep:]),
            "truncated norm", tol=tol * max(1, len(s_all)))
  if keep == len(s_all):
    ctx.close(res, a, "U S V", tol=tol)
    ctx.obs("untruncated")
  else:
    ctx.obs("truncated")
    if "max_truncation_error" in kw:
      ctx.obs("truncated_by_error")
    if "max_singular_values" in kw:
      ctx.obs("truncated_by_number")
  if len(sv) and not np.any(s_all[:keep] == 0) and u.ndim:
    x = bs.tensordot(bs.tensordot(u, bs.diag(s), ([u.ndim - 1], [0])), v,
                     ([u.ndim - 1], [0]))
    ctx.close(np.asarray(x.todense()).reshape(res.shape), res,
              "U diag(S) V (block sparse)", tol=tol)
    sym.check_meta(ctx, x, m, "U diag(S) V")
    ctx.obs("products")
  fr.verify(ctx, "svd")


def case_backend_qr(ctx):
  dtype = ctx.choice(DT)
  tol = tolof(dtype)
  g, rows, cols, lp, rp, t, m, a = _tensor(ctx, dtype)
  fr = Frozen(t=t)
  pivot = len(lp) if ctx.flip(0.7) else len(lp) - len(lp + rp)
  which = ctx.choice(["qr", "rq"])
  x, y = getattr(_be(), which)(t, pivot)
  xm, (xq, xf) = read(ctx, g, x, rows, False, which + " left factor", dtype, lp)
  ym, (yq, yf) = read(ctx, g, y, cols, True, which + " right factor", dtype, rp)
  # equal group elements seen from the two sides
  ctx.check(np.array_equal(sym.reduce_mod(g, xq * (-1 if xf else 1)),
                           sym.reduce_mod(g, -yq * (-1 if yf else 1))),
            "%s: the bond legs are not dual", which)
  iso(ctx, xm if which == "qr" else ym, which == "qr", which, tol)
  ctx.close(xm @ ym, a, which + " product", tol=tol)
  z = bs.tensordot(x, y, ([x.ndim - 1], [0]))
  ctx.close(np.asarray(z.todense()).reshape(a.shape), a,
            which + " product (block sparse)", tol=tol)
  sym.check_meta(ctx, z, m, which + " product")
  ctx.obs("products")
  ctx.obs("backend_" + which)
  ctx.rejects(lambda: getattr(_be(), which)(t, pivot,
                                            non_negative_diagonal=True),
              "non_negative_diagonal", (NotImplementedError,))
  fr.verify(ctx, which)


def case_reject(ctx):
  g = sym.group(ctx)
  n = ctx.choice([1, 3, 4])
  t, m = sym.make(ctx, g, sym.rand_legs(ctx, g, n, empty=0), [1] * n)
  fr = Frozen(t=t)
  for fn in (bs.svd, bs.qr, bs.eigh, bs.eig, bs.inv, bs.pinv):
    ctx.rejects(lambda: fn(t), fn.__name__ + " of a rank-%d tensor" % n,
                (NotImplementedError, ValueError))
  # a singular matrix has no inverse
  q = sym.rand_q(ctx, g, ctx.integers(1, 4))
  rows, cols = [(q, False)], [(q, True)]
  t2, _ = sym.make(ctx, g, rows + cols, [1, 1], np.float64,
                   np.zeros((len(q), len(q))))
  ctx.rejects(lambda: bs.inv(t2), "inverse of a singular matrix",
              (np.linalg.LinAlgError, ValueError))
  # nor has one with a sector that only the rows or only the columns carry
  k = ctx.integers(1, 5)
  rows, cols = (sym.rand_q(ctx, g, k), False), (sym.rand_q(ctx, g, k), True)
  qr, qc = sym.total(g, [rows]), sym.reduce_mod(g, -sym.total(g, [cols]))
  if not np.array_equal(qr[np.lexsort(qr.T)], qc[np.lexsort(qc.T)]):
    t4, _ = sym.make(ctx, g, [rows, cols], [1, 1], np.float64)
    ctx.rejects(lambda: bs.inv(t4), "inverse of a matrix with unmatched "
                "sectors", (np.linalg.LinAlgError, ValueError))
    ctx.obs("unmatched_inverses")
  t3, _ = sym.make(ctx, g, sym.rand_legs(ctx, g, 2, empty=0), [1, 1])
  ctx.rejects(lambda: bs.qr(t3, "nope"), "unknown qr mode", (ValueError,))
  fr.verify(ctx, "a rejected operation")


def case_many(ctx):
  """The factorisations on matrices with more than a hundred sectors."""
  fn = ctx.choice([case_svd, case_qr, case_eigh, case_eig, case_inv,
                   case_backend_svd, case_backend_svd, case_backend_qr])
  ctx.sig(fn.__name__)
  ctx.note(fn.__name__)
  MANY[0] = True
  try:
    fn(ctx)
  finally:
    MANY[0] = False


CHECK = core.Check(
    "C12",
    [
        core.Group("svd", case_svd, 1200, 20000),
        core.Group("qr", case_qr, 800, 12000),
        core.Group("eigh", case_eigh, 700, 10000),
        core.Group("eig", case_eig, 400, 6000),
        core.Group("inv", case_inv, 800, 12000),
        core.Group("backend_svd", case_backend_svd, 2500, 40000),
        core.Group("backend_qr", case_backend_qr, 1000, 16000),
        core.Group("many", case_many, 64, 1200, cpu=120),
        core.Group("reject", case_reject, 150, 1500),
    ],
    rule="cases in which every factor of a block-sparse factorisation was "
         "checked leg by leg and against the dense matrix; distinct by "
         "symmetry, fusion layout, dtype and spectrum kind",
    required=("factors_verified", "isometries", "spectra", "products",
              "full_svds", "eighs", "eigs", "inverses", "pseudo_inverses",
              "truncated_by_error", "truncated_by_number", "untruncated",
              "backend_qr", "backend_rq", "qr_complete", "rejections",
              "many_sector_matrices"),
)
