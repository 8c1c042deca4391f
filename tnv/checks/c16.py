"""C16: gates act on an MPS as on its state vector."""
import numpy as np
import tensornetwork as tn
from tensornetwork import FiniteMPS
from tensornetwork.matrixproductstates.base_mps import BaseMPS

from tnv import core, mps, nets, sym
from tnv.checks import c15
from tnv.dense import Frozen, to_np


def gate(ctx, m, sites, dtype, g, qs, dims, unitary=None):
  """(gate for the library with axes out..., in..., dense matrix-like)."""
  k = len(sites)
  size = int(np.prod(dims))
  unitary = ctx.flip() if unitary is None else unitary
  if g is None:
    a = ctx.array((size, size), np.complex128 if np.dtype(dtype).kind == "c"
                  else np.float64)
    if unitary:
      a, _ = np.linalg.qr(a)
    elif ctx.flip(0.2):
      a = a[:, :1] @ a[:1, :]
    a = a.reshape(tuple(dims) * 2).astype(dtype)
    if ctx.flip(0.2):
      return m.backend.convert_to_tensor(a), a, unitary
    if ctx.flip(0.2):
      return np.asfortranarray(a), a, unitary
    return a, a, unitary
  legs = [(qs[s], False) for s in sites] + [(qs[s], True) for s in sites]
  a = ctx.array((size, size), dtype)
  if unitary:
    # block-diagonal unitary: exponentiate a charge-conserving hermitian
    mask = sym.mask(g, legs).reshape(size, size)
    h = np.where(mask, a, 0)
    if np.dtype(dtype).kind == "c":
      h = h + h.conj().T
      w, v = np.linalg.eigh(h)
      a = (v * np.exp(1j * w)) @ v.conj().T
    else:
      h = h - h.T
      w, v = np.linalg.eigh(1j * h)
      a = ((v * np.exp(-1j * w)) @ v.conj().T).real
    a = np.where(mask, a, 0)
  t, mod = sym.make(ctx, g, legs, [1] * (2 * k), dtype,
                    a.reshape(tuple(dims) * 2).astype(dtype))
  return t, mod.todense(), unitary


def apply(psi, a, sites):
  k = len(sites)
  ax = [s + 1 for s in sites]
  r = np.tensordot(a.astype(np.complex128), psi,
                   (list(range(k, 2 * k)), ax))
  return np.moveaxis(r, list(range(k)), ax)


def close_state(ctx, got, want, what, tol, ref):
  sc = max(np.linalg.norm(ref), 1e-300)
  ctx.close(got / sc, want / sc, what, tol=tol)


def tails_of(tw):
  if hasattr(tw, "todense"):
    return np.asarray(tw.todense()).ravel()
  return np.asarray(to_np(tw)).ravel()


def case_one_site(ctx, backend=None):
  backend, dtype, m, psi, g, qs = c15.build(ctx, backend, edges=0.15)
  n = len(m)
  tol = mps.tolof(dtype) * 10
  for _ in range(ctx.integers(1, 3)):
    s = ctx.integers(0, n - 1)
    gt, a, unitary = gate(ctx, m, [s], dtype, g, qs, [psi.shape[s + 1]])
    frozen = Frozen(gate=gt)
    snap = mps.snapshot(m)
    keep = list(m.tensors)
    keep_f = Frozen(tensors=keep)
    c = m.center_position
    was = c is not None and _canonical(m, c, tol)
    ctx.note("one-site", s, "unitary", unitary)
    ctx.sig(s, unitary)
    m.apply_one_site_gate(gt, s)
    want = apply(psi, a, [s])
    close_state(ctx, mps.state(m), want, "one-site gate at %d of %d" % (s, n),
                tol, psi)
    frozen.verify(ctx, "apply_one_site_gate")
    keep_f.verify(ctx, "apply_one_site_gate")
    for i in range(n):
      if i != s:
        ctx.check(np.array_equal(to_np(m.tensors[i]), snap[0][i]),
                  "one-site gate at %d changed tensor %d", s, i)
    if unitary and was:
      ctx.eq(m.center_position, c, "centre after a unitary one-site gate")
      mps.isometries(ctx, m, "unitary one-site gate", tol)
      ctx.obs("unitary_one_site")
    psi = mps.state(m).astype(np.complex128)
    ctx.obs("one_site_gates")
    if np.linalg.norm(psi) < 1e-6:
      return


def _canonical(m, c, tol):
  for i in range(len(m)):
    if i == c:
      continue
    a = to_np(m.tensors[i])
    a = a.reshape(-1, a.shape[2]) if i < c else a.reshape(a.shape[0], -1)
    gm = a.conj().T @ a if i < c else a @ a.conj().T
    if np.abs(gm - np.eye(len(gm))).max() > tol:
      return False
  return True


def case_two_site(ctx, backend=None):
  backend, dtype, m, psi, g, qs = c15.build(ctx, backend, edges=0.15)
  n = len(m)
  if n == 1:
    return
  tol = mps.tolof(dtype) * 10
  for _ in range(ctx.integers(1, 4)):
    s1 = ctx.integers(0, n - 2)
    s2 = s1 + 1
    truncate = ctx.flip(0.5) and m.center_position is not None
    if truncate and ctx.flip(0.9) and m.center_position not in (s1, s2):
      m.position(ctx.choice([s1, s2]), normalize=False)
    cp = ctx.choice([None, s1, s2])
    c0 = m.center_position
    psi = mps.state(m).astype(np.complex128)
    nrm = np.linalg.norm(psi)
    if nrm < 1e-6:
      return
    gt, a, unitary = gate(ctx, m, [s1, s2], dtype, g, qs,
                          [psi.shape[s1 + 1], psi.shape[s2 + 1]])
    want = apply(psi, a, [s1, s2])
    canonical = c0 is not None and _canonical(m, c0, tol)
    kw = {} if cp is None and ctx.flip() else {"center_position": cp}
    frozen = Frozen(gate=gt)
    snap = mps.snapshot(m)
    keep = list(m.tensors)
    keep_f = Frozen(tensors=keep)
    if truncate:
      # singular values of the updated two-site tensor
      A = to_np(m.tensors[s1]).astype(np.complex128)
      B = to_np(m.tensors[s2]).astype(np.complex128)
      th = np.einsum("apb,bqc,xypq->axyc", A, B, a.astype(np.complex128))
      s = np.linalg.svd(th.reshape(th.shape[0] * th.shape[1], -1),
                        compute_uv=False)
      if s[0] < 1e-6 * nrm:
        return
      full = len(s)
      keepn = full
      if ctx.flip(0.6):
        D = ctx.integers(1, full + 1)
        kw["max_singular_values"] = D
        keepn = min(keepn, D)
      if "max_singular_values" not in kw or ctx.flip(0.4):
        rel = ctx.flip()
        tl = np.sqrt(np.append(np.cumsum((s**2)[::-1])[::-1], 0))
        err = ctx.choice([0.0, float(10**ctx.rng.uniform(-2.5, -0.1))])
        if not rel:
          err = err * float(s[0])
        lim = err * (s[0] if rel else 1)
        if err > 0 and any(abs(x - lim) < 1e-3 * lim + 1e-4 * s[0]
                           for x in tl):
          return
        kw["max_truncation_err"] = err
        if rel:
          kw["relative"] = True
        k = full if err == 0 else min(i for i in range(full + 1)
                                      if tl[i] <= lim)
        if k == 0:
          return
        keepn = min(keepn, k)
      ctx.note("two-site", s1, kw, "centre", c0, "keeps", keepn, "of", full)
      ctx.sig(s1, sorted(kw.items(), key=str), c0)
      rejected = c0 not in (s1, s2) and (kw.get("max_singular_values") or
                                         kw.get("max_truncation_err"))
      if rejected:
        ctx.rejects(lambda: m.apply_two_site_gate(gt, s1, s2, **kw),
                    "truncation away from the centre %s" % c0, (ValueError,))
        mps.untouched(ctx, m, snap, "the rejected gate")
        ctx.obs("rejected_truncations")
        continue
      tw = tails_of(m.apply_two_site_gate(gt, s1, s2, **kw))
      frozen.verify(ctx, "apply_two_site_gate")
      got = mps.state(m).astype(np.complex128)
      bond = int(m.bond_dimensions[s2])
      if "max_singular_values" in kw:
        ctx.check(bond <= kw["max_singular_values"], "two-site gate %s left a "
                  "bond of %d", kw, bond)
      lost2 = np.sum(s[keepn:]**2)
      sc = float(s[0])
      ctx.close(np.sqrt(np.sum(np.abs(tw)**2)) / sc, np.sqrt(lost2) / sc,
                "discarded singular values %s of %s with %s" % (tw, s, kw),
                tol=max(tol, 1e-7), shape=False)
      if canonical:
        # the global error is exactly the discarded weight
        err = np.linalg.norm(got - want)
        ctx.close(err / sc, np.sqrt(lost2) / sc, "change of the state under "
                  "truncation %s" % kw, tol=max(tol, 1e-7) * 10, shape=False)
        ctx.close(np.linalg.norm(got)**2 / sc**2,
                  (np.linalg.norm(want)**2 - lost2) / sc**2,
                  "weight kept under truncation", tol=max(tol, 1e-7) * 10,
                  shape=False)
        ctx.obs("truncation_accounted")
        if lost2 > 1e-6 * sc**2:
          ctx.obs("lossy_gates")
      elif lost2 < 1e-14 * sc**2:
        close_state(ctx, got, want, "two-site gate", tol, want)
    else:
      ctx.note("two-site", s1, kw, "centre", c0)
      ctx.sig(s1, sorted(kw.items(), key=str), c0)
      if ctx.flip(0.2):
        tw = m.apply_two_site_gate(gate=gt, site1=s1, site2=s2, **kw)
      else:
        tw = m.apply_two_site_gate(gt, s1, s2, **kw)
      frozen.verify(ctx, "apply_two_site_gate")
      ctx.check(not np.any(tails_of(tw)), "an exact gate reports discarded "
                "values %s", tw)
      close_state(ctx, mps.state(m), want,
                  "two-site gate at (%d, %d) of %d, %s" % (s1, s2, n, kw),
                  tol, psi)
      ctx.obs("exact_gates")
    keep_f.verify(ctx, "apply_two_site_gate")
    for i in range(n):
      if i not in (s1, s2):
        ctx.check(np.array_equal(to_np(m.tensors[i]), snap[0][i]),
                  "two-site gate at %d changed tensor %d", s1, i)
    # documented centre
    if c0 is None or c0 not in (s1, s2):
      ctx.eq(m.center_position, None, "centre after a gate away from it")
    else:
      ctx.eq(m.center_position, s1 if cp is None else cp,
             "centre after a gate with center_position=%s" % cp)
      if canonical:
        mps.isometries(ctx, m, "two-site gate with %s" % kw, tol * 10)
        ctx.obs("centre_claims")
    d = psi.shape[1:-1]
    mps.bookkeeping(ctx, m, "two-site gate", dtype, d)
    if m.center_position is None and ctx.flip(0.6):
      if np.linalg.norm(mps.state(m)) < 1e-6:
        return
      m.canonicalize()


def case_circuit(ctx):
  """Deep circuits of unitary and other gates interleaved with moves and
  measurements, without loss."""
  backend, dtype, m, psi, g, qs = c15.build(
      ctx, ctx.choice(["numpy"] * 4 + ["symmetric", "tensorflow"]), maxn=5)
  n = len(m)
  if m.center_position is None:
    m.canonicalize()
  psi = mps.state(m).astype(np.complex128)
  tol = mps.tolof(dtype) * 100
  for _ in range(ctx.integers(4, 10)):
    r = ctx.rng.random()
    if r < 0.25 or n == 1:
      s = ctx.integers(0, n - 1)
      gt, a, u = gate(ctx, m, [s], dtype, g, qs, [psi.shape[s + 1]], True)
      m.apply_one_site_gate(gt, s)
      psi = apply(psi, a, [s])
    elif r < 0.75:
      s = ctx.integers(0, n - 2)
      if ctx.flip(0.7):
        m.position(ctx.choice([s, s + 1]), normalize=False)
      gt, a, u = gate(ctx, m, [s, s + 1], dtype, g, qs,
                      [psi.shape[s + 1], psi.shape[s + 2]], True)
      c0 = m.center_position
      cp = ctx.choice([None, s, s + 1])
      kw = {}
      if c0 in (s, s + 1) and ctx.flip(0.3):
        kw["max_singular_values"] = 1000
      m.apply_two_site_gate(gt, s, s + 1, center_position=cp, **kw)
      psi = apply(psi, a, [s, s + 1])
      if m.center_position is None:
        m.canonicalize(normalize=False)
    else:
      m.position(ctx.integers(0, n - 1), normalize=False)
    close_state(ctx, mps.state(m), psi, "circuit", tol, psi)
    mps.isometries(ctx, m, "circuit of unitary gates", tol)
    ctx.obs("circuit_steps")
  s = ctx.integers(0, n - 1)
  o, d = c15.operator(ctx, m, s, dtype, g, qs, psi.shape[s + 1])
  t, sc = c15.tol(dtype, psi, d)
  ctx.close(c15.scalar(m.measure_local_operator([o], [s])[0]) / sc,
            c15.expval(psi, [(d, s)]) / sc, "measurement after a circuit",
            tol=t * 100, shape=False)


def overlap(a, b):
  e = np.eye(1, dtype=np.complex128)
  for x, y in zip(a, b):
    e = np.einsum("ab,apc,bpd->cd", e, np.conj(x), y)
  return e[0, 0]


def case_long(ctx):
  """Circuits on chains too long for a state vector, next to an independent
  exact evolution of the tensors, compared through overlaps."""
  n = ctx.integers(8, 30)
  dtype = ctx.choice([np.float64, np.complex128])
  d = [ctx.choice([1, 2, 2, 3]) for _ in range(n)] if ctx.flip() else [2] * n
  D = [1] + [ctx.integers(1, 3) for _ in range(n - 1)] + [1]
  m = FiniteMPS([ctx.array((D[i], d[i], D[i + 1]), dtype) for i in range(n)],
                backend="numpy", center_position=ctx.integers(0, n - 1))
  ref = [to_np(t).astype(np.complex128) for t in m.tensors]
  ctx.note(n, d, D, m.center_position)
  ctx.sig(n, d, D, m.center_position)
  brick = ctx.flip(0.4)
  steps = ([s for k in (0, 1) for s in range(k, n - 1, 2)] if brick else
           [ctx.integers(0, n - 2) for _ in range(ctx.integers(2, 8))])
  lossless = ctx.flip()
  for s in steps:
    g, a, _ = gate(ctx, m, [s, s + 1], dtype, None, None, d[s:s + 2], True)
    th = np.einsum("apb,bqc,xypq->axyc", ref[s], ref[s + 1],
                   a.astype(np.complex128))
    sh = th.shape
    u, x, v = np.linalg.svd(th.reshape(sh[0] * sh[1], -1),
                            full_matrices=False)
    k = max(1, int(np.sum(x > 1e-13 * x[0])))
    ref[s] = u[:, :k].reshape(sh[0], sh[1], k)
    ref[s + 1] = (x[:k, None] * v[:k]).reshape(k, sh[2], sh[3])
    kw = {}
    if lossless or ctx.flip():
      m.position(ctx.choice([s, s + 1]), normalize=False)
      kw = dict(center_position=ctx.choice([s, s + 1]))
      if lossless:
        kw["max_truncation_err"] = 1e-11
    if k > 40:
      raise core.Inconclusive("bond too large")
    tw = tails_of(m.apply_two_site_gate(g, s, s + 1, **kw))
    ctx.check(np.sum(np.abs(tw)**2) < 1e-20, "lossless gate reports %s", tw)
    if m.center_position is None:
      m.canonicalize(normalize=False)
    if ctx.flip(0.3):
      i = ctx.integers(0, n - 1)
      g, a, _ = gate(ctx, m, [i], dtype, None, None, [d[i]], True)
      m.apply_one_site_gate(g, i)
      ref[i] = np.einsum("qp,apc->aqc", a.astype(np.complex128), ref[i])
    ctx.obs("long_gates")
  got = [to_np(t).astype(np.complex128) for t in m.tensors]
  ctx.close(overlap(ref, got), overlap(ref, ref), "circuit on %d sites: overlap"
            % n, tol=1e-8)
  ctx.close(overlap(got, got), overlap(ref, ref), "circuit on %d sites: norm" %
            n, tol=1e-8)
  mps.isometries(ctx, m, "circuit on a long chain", 1e-8)


def case_invalid(ctx):
  backend, dtype, m, psi, g, qs = c15.build(
      ctx, ctx.choice(["numpy", "numpy", "tensorflow"]), maxn=5)
  n = len(m)
  dims = psi.shape[1:-1]
  snap = mps.snapshot(m)
  kind = ctx.choice(["rank1", "rank2", "site1", "sites", "shape1", "shape2",
                     "center", "truncate", "order"])
  ctx.note(kind)
  ctx.sig(kind)
  kw = {}
  if kind == "rank1":
    r = ctx.choice([0, 1, 3, 4])
    call = lambda: m.apply_one_site_gate(np.ones((dims[0],) * r, dtype), 0)
  elif kind == "site1":
    s = ctx.choice([-1, n, n + 1, -n])
    call = lambda: m.apply_one_site_gate(np.eye(2, dtype=dtype), s)
  elif kind == "shape1":
    s = ctx.integers(0, n - 1)
    sh = (dims[s], dims[s] + 1)
    call = lambda: m.apply_one_site_gate(np.ones(sh, dtype), s)
  else:
    if n == 1:
      call = lambda: m.apply_two_site_gate(
          np.ones((dims[0],) * 4, dtype), 0, 1)
    else:
      s = ctx.integers(0, n - 2)
      a, b = dims[s], dims[s + 1]
      ok = np.ones((a, b, a, b), dtype)
      if kind == "rank2":
        r = ctx.choice([0, 1, 2, 3, 5, 6])
        call = lambda: m.apply_two_site_gate(np.ones((a,) * r, dtype), s, s + 1)
      elif kind == "sites":
        p, q = ctx.choice([(-1, 0), (n - 1, n), (-2, -1), (n, n + 1),
                           (n - 1, 0), (0, n), (-1, n - 1)])
        call = lambda: m.apply_two_site_gate(ok, p, q)
      elif kind == "order":
        p, q = ctx.choice([(s + 1, s), (s, s), (s, s + 2), (s + 1, s + 1)])
        call = lambda: m.apply_two_site_gate(ok, p, q)
      elif kind == "shape2":
        bad = [(a, b, a + 1, b), (a, b, a, b + 1), (a, b, a + 2, b + 1)]
        if a != b:
          bad.append((a, b, b, a))
        sh = ctx.choice(bad)
        call = lambda: m.apply_two_site_gate(np.ones(sh, dtype), s, s + 1)
      elif kind == "center":
        cp = ctx.choice([-1, s - 1, s + 2, n])
        call = lambda: m.apply_two_site_gate(ok, s, s + 1, center_position=cp)
      else:
        if m.center_position in (s, s + 1):
          return
        k2 = ctx.choice([{"max_singular_values": 1},
                         {"max_truncation_err": 0.1},
                         {"max_singular_values": 2,
                          "max_truncation_err": 0.1}])
        call = lambda: m.apply_two_site_gate(ok, s, s + 1, **k2)
  ctx.rejects(call, "invalid gate call (%s)" % kind)
  ctx.obs("invalid_" + kind)
  mps.untouched(ctx, m, snap, "the rejected gate (%s)" % kind)


CHECK = core.Check(
    "C16",
    [
        core.Group("two_site", case_two_site, 1400, 25000),
        core.Group("one_site", case_one_site, 500, 8000),
        core.Group("circuit", case_circuit, 300, 5000),
        core.Group("long", case_long, 120, 2000),
        core.Group("invalid", case_invalid, 600, 6000),
    ],
    rule="gates compared with their action on the dense state vector and "
         "discarded values with the exact change; distinct by shapes, "
         "backend, sites and options",
    setup=nets.setup_jax,
    required=("one_site_gates", "unitary_one_site", "exact_gates",
              "truncation_accounted", "lossy_gates", "centre_claims",
              "circuit_steps", "long_gates", "rejected_truncations", "invalid_center",
              "invalid_truncate", "backend_tensorflow", "backend_jax",
              "backend_symmetric"),
)
