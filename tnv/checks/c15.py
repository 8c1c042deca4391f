"""C15: MPS measurements equal expectation values of the state vector."""
import numpy as np
import tensornetwork as tn
from tensornetwork import FiniteMPS

from tnv import core, mps, nets, sym
from tnv.dense import Frozen, to_np


def envs(psis, upto):
  """Left environments: contraction of the ket/bra chain of all tensors left of
  each site, [ket bond, bra bond]."""
  e = np.eye(psis[0].shape[0], dtype=np.complex128)
  out = [e]
  for a in psis:
    e = np.einsum("ab,apc,bpd->cd", e, a, a.conj())
    out.append(e)
  return out


def renvs(psis):
  e = np.eye(psis[-1].shape[2], dtype=np.complex128)
  out = [e]
  for a in reversed(psis):
    e = np.einsum("apc,bpd,cd->ab", a, a.conj(), e)
    out.append(e)
  return out[::-1]


def build(ctx, backend=None, maxn=6, edges=0.0):
  backend = backend or mps.pick_backend(ctx)
  dtype = ctx.choice([np.float64, np.complex128, np.complex128] +
                     ([np.float32, np.complex64] if backend == "numpy" else []))
  g = qs = None
  for _ in range(60):
    if backend == "symmetric":
      n = ctx.integers(1, min(maxn, 5))
      ts, g, qs = mps.gen_symmetric(ctx, dtype, n)
      desc = ("sym", [str(x) for x in g])
    else:
      d, D = mps.gen_shape(ctx, maxn=3 if backend == "jax" else maxn,
                           edges=edges)
      ts, kind = mps.gen_dense(ctx, dtype, d, D)
      desc = (kind,)
    psi = mps.chain([to_np(t).astype(np.complex128) for t in ts])
    if np.linalg.norm(psi) > 1e-6 * np.prod(
        [np.linalg.norm(to_np(t)) for t in ts]) and psi.size < 1500:
      break
  else:
    raise core.Inconclusive("no state")
  n = len(ts)
  route = ctx.choice(["canonical"] * 4 + ["raw", "scaled"])
  if route == "raw":
    m = FiniteMPS(list(ts), canonicalize=False, backend=backend)
  else:
    m = FiniteMPS(list(ts), backend=backend,
                  center_position=ctx.integers(0, n - 1))
    if ctx.flip():
      m.position(ctx.integers(0, n - 1))
    if route == "scaled":
      c = m.center_position
      m.tensors[c] = m.tensors[c] * 1.5
  ctx.note(backend, np.dtype(dtype).name, desc, [tuple(t.shape) for t in ts],
           route, m.center_position)
  ctx.sig(backend, np.dtype(dtype).char, desc, [tuple(t.shape) for t in ts],
          route, m.center_position)
  ctx.obs("backend_" + backend)
  ctx.obs("route_" + route)
  psi = mps.state(m).astype(np.complex128)
  return backend, dtype, m, psi, g, qs


def operator(ctx, m, site, dtype, g, qs, d, charged=None):
  """(operator as given to the library, dense)."""
  if g is None:
    o = ctx.array((d, d), dtype)
    if ctx.flip(0.3):
      o = o * (ctx.rng.random((d, d)) < 0.5)
    o = np.asarray(o).astype(dtype)
    r = ctx.rng.random()
    if r < 0.2:
      return m.backend.convert_to_tensor(o), o
    return o, o
  t, mod = sym.make(ctx, g, [(qs[site], False), (qs[site], True)], [1, 1],
                    dtype)
  return t, mod.todense()


def expval(psi, ops):
  """<psi| product of one-site operators |psi>; later entries act first."""
  phi = psi
  for o, s in reversed(ops):
    phi = np.moveaxis(np.tensordot(o.astype(np.complex128), phi,
                                   ((1,), (s + 1,))), 0, s + 1)
  return np.vdot(psi, phi)


def tol(dtype, psi, *ops):
  t = 1e-3 if np.dtype(dtype) in (np.float32, np.complex64) else 1e-8
  s = np.vdot(psi, psi).real
  for o in ops:
    s = s * max(1e-300, np.linalg.norm(o, 2)) if o.size else s
  return t, max(s, 1e-300)


def scalar(x):
  x = np.asarray(to_np(x)) if not isinstance(x, (complex, float)) else x
  return complex(np.asarray(x).reshape(()))


def case_local(ctx, backend=None):
  backend, dtype, m, psi, g, qs = build(ctx, backend)
  n = len(m)
  sites = [ctx.integers(0, n - 1) for _ in range(ctx.integers(0, n + 2))]
  if ctx.flip(0.3):
    sites = list(range(n))
  pairs = [operator(ctx, m, s, dtype, g, qs, psi.shape[s + 1]) for s in sites]
  ops = [p[0] for p in pairs]
  snap = mps.snapshot(m)
  frozen = Frozen(ops=ops, sites=sites)
  form = ctx.choice(["list", "array", "tuple"])
  arg = {"list": sites, "array": np.array(sites, dtype=np.int64),
         "tuple": tuple(sites)}[form]
  ctx.note("sites", sites, form)
  ctx.sig(sites)
  res = m.measure_local_operator(ops, arg)
  ctx.eq(len(res), len(sites), "number of results")
  for s, (_, o), r in zip(sites, pairs, res):
    want = expval(psi, [(o, s)])
    t, sc = tol(dtype, psi, o)
    ctx.close(scalar(r) / sc, want / sc, "measure_local_operator at %d of %d, "
              "centre %s" % (s, n, m.center_position), tol=t, shape=False)
    ctx.obs("local_values")
  if len(set(sites)) < len(sites):
    ctx.obs("repeated_sites")
  mps.untouched(ctx, m, snap, "measure_local_operator")
  frozen.verify(ctx, "measure_local_operator")
  k = ctx.integers(0, n + 3)
  if k != len(sites):
    ctx.rejects(lambda: m.measure_local_operator(
        ops, [ctx.integers(0, n - 1) for _ in range(k)]),
                "%d operators for %d sites" % (len(ops), k), (ValueError,))


def case_two_body(ctx, backend=None):
  backend, dtype, m, psi, g, qs = build(ctx, backend)
  n = len(m)
  site1 = ctx.integers(0, n - 1)
  # op2 acts on all partner sites: needs one physical space
  if g is None:
    d2s = psi.shape[1:-1]
    s0 = ctx.integers(0, n - 1)
    cand = [s for s in range(n) if d2s[s] == d2s[s0]]
  else:
    s0 = ctx.integers(0, n - 1)
    cand = [s for s in range(n) if np.array_equal(qs[s], qs[s0])]
  kind = ctx.choice(["set", "set", "all", "one", "repeats", "none"])
  if kind == "all":
    sites2 = list(cand)
  elif kind == "one":
    sites2 = [ctx.choice(cand)]
  elif kind == "none":
    sites2 = []
  else:
    sites2 = ctx.subset(cand)
    if kind == "repeats" and sites2:
      sites2 = ctx.shuffled(sites2 + [ctx.choice(sites2)])
  op1, d1 = operator(ctx, m, site1, dtype, g, qs, psi.shape[site1 + 1])
  op2, d2 = operator(ctx, m, s0, dtype, g, qs, psi.shape[s0 + 1])
  snap = mps.snapshot(m)
  frozen = Frozen(ops=[op1, op2], sites=sites2)
  form = ctx.choice(["list", "array", "tuple"])
  arg = {"list": sites2, "array": np.array(sites2, dtype=np.int64),
         "tuple": tuple(sites2)}[form]
  ctx.note("site1", site1, "sites2", sites2, form)
  ctx.sig(site1, sites2)
  res = m.measure_two_body_correlator(op1, op2, site1, arg)
  ctx.eq(len(res), len(sites2), "number of correlators for %s" % sites2)
  for s, r in zip(sites2, res):
    want = expval(psi, [(d1, site1), (d2, s)])
    t, sc = tol(dtype, psi, d1, d2)
    ctx.close(scalar(r) / sc, want / sc, "correlator (%d, %d) of %s in %d "
              "sites, centre %s" % (site1, s, sites2, n, m.center_position),
              tol=t, shape=False)
    ctx.obs("correlators")
    ctx.obs("partner_" + ("left" if s < site1 else "right" if s > site1 else
                          "same"))
  if sites2 != sorted(set(sites2)):
    ctx.obs("unsorted_partners")
  mps.untouched(ctx, m, snap, "measure_two_body_correlator")
  frozen.verify(ctx, "measure_two_body_correlator")


def case_envs(ctx, backend=None):
  backend, dtype, m, psi, g, qs = build(ctx, backend, edges=0.2)
  n = len(m)
  ts = [to_np(t).astype(np.complex128) for t in m.tensors]
  L, R = envs(ts, n), renvs(ts)
  c = m.center_position
  snap = mps.snapshot(m)
  t = 1e-3 if np.dtype(dtype) in (np.float32, np.complex64) else 1e-8
  side = ctx.choice(["left", "right"])
  lo, hi = (0, n) if side == "left" else (-1, n - 1)
  sites = [ctx.integers(lo, hi) for _ in range(ctx.integers(0, n + 2))]
  if ctx.flip(0.3):
    sites = list(range(lo, hi + 1))
  arg = ctx.choice([sites, tuple(sites), np.array(sites, dtype=np.int64)])
  ctx.note(side, sites)
  ctx.sig(side, sites)
  res = m.left_envs(arg) if side == "left" else m.right_envs(arg)
  ctx.eq(sorted(int(k) for k in res), sorted(set(sites)),
         side + "_envs: sites returned")
  for s in set(sites):
    got = to_np(res[s])
    want = L[s] if side == "left" else R[s + 1]
    sc = max(np.abs(want).max(), 1e-300)
    ctx.close(got / sc, want / sc, "%s_envs at %d, centre %s" % (side, s, c),
              tol=t)
    ctx.obs(side + "_envs")
  mps.untouched(ctx, m, snap, side + "_envs")
  bad = [ctx.integers(0, n - 1) for _ in range(2)]
  bad.insert(ctx.integers(0, 2),
             ctx.choice([n + 1, -1] if side == "left" else [n, -2]))
  ctx.rejects(lambda: (m.left_envs if side == "left" else m.right_envs)(bad),
              "%s_envs of sites %s of %d" % (side, bad, n), (ValueError,))


def case_transfer(ctx, backend=None):
  backend, dtype, m, psi, g, qs = build(ctx, backend, edges=0.2)
  n = len(m)
  s = ctx.integers(0, n - 1)
  a = to_np(m.tensors[s]).astype(np.complex128)
  dirs = {"left": [1, "l", "left"], "right": [-1, "r", "right"]}
  side = ctx.choice(list(dirs))
  direction = ctx.choice(dirs[side])
  snap = mps.snapshot(m)
  ax = 0 if side == "left" else 2
  if g is None:
    x = ctx.array((a.shape[ax],) * 2, dtype)
    x = m.backend.convert_to_tensor(x)
  else:
    # the environment contracts with ket and bra: dual legs
    e = np.eye(a.shape[ax])
    res = m.left_envs([s]) if side == "left" else m.right_envs([s])
    x = res[s]
  frozen = Frozen(x=x)
  ctx.note("site", s, direction)
  ctx.sig(s, direction)
  got = to_np(m.apply_transfer_operator(s, direction, x))
  xd = to_np(x).astype(np.complex128)
  want = (np.einsum("ab,apc,bpd->cd", xd, a, a.conj()) if side == "left" else
          np.einsum("apc,bpd,cd->ab", a, a.conj(), xd))
  t, _ = tol(dtype, psi)
  sc = max(np.abs(want).max(), 1e-30)
  ctx.close(got / sc, want / sc, "transfer operator at %d, %r" % (s, direction),
            tol=t)
  ctx.obs("transfer_" + side)
  frozen.verify(ctx, "apply_transfer_operator")
  mps.untouched(ctx, m, snap, "apply_transfer_operator")
  ctx.rejects(lambda: m.apply_transfer_operator(
      s, ctx.choice([0, "up", "", 2, None]), x), "unknown direction",
              (ValueError,))


def case_history(ctx):
  """Measurements interleaved with moves, rescaling and gates: nothing is
  remembered from an earlier state."""
  backend, dtype, m, psi, g, qs = build(
      ctx, ctx.choice(["numpy"] * 4 + ["symmetric", "tensorflow"]), maxn=5)
  if m.center_position is None:
    m.canonicalize()
  n = len(m)
  fixed = ctx.integers(0, n - 1)      # asked for again and again
  for _ in range(ctx.integers(2, 6)):
    op = ctx.choice(["move", "canon", "replace", "gate", "inplace", "inplace",
                     "nothing"])
    if op == "move":
      m.position(ctx.integers(0, n - 1), normalize=ctx.flip())
    elif op == "canon":
      m.canonicalize(normalize=ctx.flip())
    elif op == "replace":
      c = m.center_position
      m.tensors[c] = m.tensors[c] * ctx.choice([0.5, 2.0, -1.0])
    elif op == "inplace":
      c = m.center_position
      if backend == "numpy":
        if not m.tensors[c].flags.writeable:
          return
        m.tensors[c] *= ctx.choice([0.5, 2.0, -1.0])
      elif backend == "symmetric":
        m.tensors[c].data = m.tensors[c].data * ctx.choice([0.5, 2.0, -1.0])
    elif op == "gate":
      s = ctx.integers(0, n - 1)
      m.position(s)
      o, _ = operator(ctx, m, s, dtype, g, qs, psi.shape[s + 1])
      before = mps.state(m)
      m.apply_one_site_gate(o, s)
      if np.linalg.norm(mps.state(m)) < 1e-3 * np.linalg.norm(before):
        return
    psi = mps.state(m).astype(np.complex128)
    s = fixed if ctx.flip(0.6) else ctx.integers(0, n - 1)
    if ctx.flip():
      # environments, which the caller then uses up
      ts = [to_np(x).astype(np.complex128) for x in m.tensors]
      for side in ("left", "right"):
        want = envs(ts, n)[s] if side == "left" else renvs(ts)[s + 1]
        res = m.left_envs([s]) if side == "left" else m.right_envs([s])
        sc = max(np.abs(want).max(), 1e-300)
        ctx.close(to_np(res[s]) / sc, want / sc, "%s_envs at %d after %s" %
                  (side, s, op), tol=1e-3 if np.dtype(dtype) in
                  (np.float32, np.complex64) else 1e-8)
        if isinstance(res[s], np.ndarray) and res[s].flags.writeable:
          res[s] *= 3
        elif backend == "symmetric":
          res[s].data = res[s].data * 3
        if ctx.flip():
          del res[s]
        ctx.obs("interleaved_envs")
    o, d = operator(ctx, m, s, dtype, g, qs, psi.shape[s + 1])
    r = m.measure_local_operator([o], [s])[0]
    t, sc = tol(dtype, psi, d)
    ctx.close(scalar(r) / sc, expval(psi, [(d, s)]) / sc,
              "measurement at %d after %s, centre %d" %
              (s, op, m.center_position), tol=t, shape=False)
    ctx.obs("interleaved_values")
    ctx.sig(op, s)


def between(ts, ops, L, R):
  """<psi| product of one-site operators (site, matrix) |psi> by transfer."""
  lo, hi = min(x for x, _ in ops), max(x for x, _ in ops)
  e = L[lo]
  for i in range(lo, hi + 1):
    b = ts[i]
    for s, o in reversed(ops):
      if s == i:
        b = np.einsum("qp,apc->aqc", o, b)
    e = np.einsum("ab,apc,bpd->cd", e, b, ts[i].conj())
  return np.einsum("cd,cd->", e, R[hi + 1])


def case_long(ctx):
  """Chains too long for a state vector: every measurement at every site."""
  n = ctx.integers(9, 45)
  dtype = ctx.choice([np.float64, np.complex128])
  Dm = ctx.integers(1, 5)
  D = [1] + [ctx.integers(1, Dm) for _ in range(n - 1)] + [1]
  d = [ctx.integers(1, 3) for _ in range(n)]
  if ctx.flip():
    d = [2] * n
  m = FiniteMPS([ctx.array((D[i], d[i], D[i + 1]), dtype) for i in range(n)],
                backend="numpy", center_position=ctx.integers(0, n - 1))
  for _ in range(ctx.integers(0, 2)):
    m.position(ctx.integers(0, n - 1))
  ctx.note(n, D, d, m.center_position)
  ctx.sig(n, D, d, m.center_position)
  snap = mps.snapshot(m)
  ts = [to_np(t).astype(np.complex128) for t in m.tensors]
  L, R = envs(ts, n), renvs(ts)
  sites = ctx.subset(range(n), ctx.integers(1, n))
  ops = [ctx.array((d[s], d[s]), dtype) for s in sites]
  for s, o, r in zip(sites, ops, m.measure_local_operator(ops, sites)):
    ctx.close(scalar(r), between(ts, [(s, o)], L, R), "local operator at %d of "
              "%d" % (s, n), tol=1e-8, shape=False)
  s1, s0 = ctx.integers(0, n - 1), ctx.integers(0, n - 1)
  s2 = [s for s in range(n) if d[s] == d[s0]]
  if ctx.flip():
    s2 = ctx.subset(s2, ctx.integers(1, len(s2)))
  a, b = ctx.array((d[s1],) * 2, dtype), ctx.array((d[s0],) * 2, dtype)
  for s, r in zip(s2, m.measure_two_body_correlator(a, b, s1, s2)):
    ctx.close(scalar(r), between(ts, [(s1, a), (s, b)], L, R), "correlator "
              "(%d, %d) of %d" % (s1, s, n), tol=1e-8, shape=False)
    ctx.obs("long_correlators")
  q = ctx.subset(range(n), ctx.integers(1, n))
  for side, ref, res in (("left", L, m.left_envs(q)),
                         ("right", R[1:], m.right_envs(q))):
    ctx.eq(sorted(int(k) for k in res), sorted(q), side + " sites")
    for s in q:
      ctx.close(to_np(res[s]), ref[s], "%s environment %d of %d" % (side, s, n),
                tol=1e-8)
  mps.untouched(ctx, m, snap, "measurements of a long chain")
  ctx.obs("long_chains")


CHECK = core.Check(
    "C15",
    [
        core.Group("local", case_local, 1000, 20000),
        core.Group("two_body", case_two_body, 1400, 25000),
        core.Group("envs", case_envs, 700, 12000),
        core.Group("transfer", case_transfer, 400, 6000),
        core.Group("history", case_history, 400, 8000),
        core.Group("long", case_long, 150, 3000),
    ],
    rule="measurements compared with the dense state vector; distinct by "
         "shapes, backend, centre and requested sites",
    setup=nets.setup_jax,
    required=("local_values", "repeated_sites", "correlators", "partner_left",
              "partner_right", "partner_same", "unsorted_partners",
              "left_envs", "right_envs", "transfer_left", "transfer_right",
              "interleaved_values", "long_correlators", "route_raw", "backend_tensorflow",
              "backend_jax", "backend_symmetric"),
)
