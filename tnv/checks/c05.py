"""C05: splits and factorisations reconstruct, are isometric and truncate
optimally."""
import numpy as np
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from tensornetwork.linalg import linalg as tnlinalg

from tnv import core, nets
from tnv.dense import Frozen, network_value, to_np
from tnv.nets import check_structure


def tolof(dtype):
  return 3e-4 if np.dtype(dtype) in (np.float32, np.complex64) else 1e-9


def gen_matrix(ctx, m, n, dtype):
  """Matrices with controlled spectra: generic, low rank, degenerate, zero,
  badly scaled."""
  kind = ctx.choice(["generic"] * 3 + ["lowrank", "degenerate", "spectrum",
                                       "spectrum", "zero", "scaled", "ints",
                                       "triangular"])
  k = min(m, n)
  cplx = np.dtype(dtype).kind == "c"
  g = lambda a, b: ctx.array((a, b), np.complex128 if cplx else np.float64)
  if kind == "generic":
    a = g(m, n)
  elif kind == "lowrank":
    r = ctx.integers(1, k)
    a = g(m, r) @ g(r, n)
  elif kind == "zero":
    a = np.zeros((m, n))
  elif kind == "ints":
    a = np.round(g(m, n).real * 1.5)
  elif kind == "triangular":
    a = np.triu(g(m, n))
    for i in range(k):
      if ctx.flip(0.3):
        a[i, i] = 0
  else:
    u, _ = np.linalg.qr(g(m, k))
    v, _ = np.linalg.qr(g(n, k))
    if kind == "degenerate":
      s = np.sort(ctx.rng.choice([3.0, 1.0, 0.5], size=k))[::-1]
    elif kind == "scaled":
      s = 10.0**np.sort(ctx.rng.uniform(-4, 3, size=k))[::-1]
    else:
      s = np.sort(ctx.rng.uniform(0.1, 4, size=k))[::-1]
    a = (u * s) @ v.conj().T
  return a.astype(dtype), kind


def plan_truncation(ctx, s):
  """Truncation arguments whose outcome is separated from rounding."""
  k = len(s)
  kw = {}
  tails = np.array([np.sqrt(np.sum(s[i:]**2)) for i in range(k + 1)])
  keep = k
  if ctx.flip(0.6):
    rel = ctx.flip()
    if rel and s[0] == 0:
      rel = False
    # candidate thresholds: between two different tails, or above all
    cands = []
    for i in range(k):
      lo, hi = tails[i + 1], tails[i]
      if hi > lo * 1.02 + 1e-3 * s[0]:
        cands.append((lo + (hi - lo) * ctx.rng.uniform(0.2, 0.8), i + 1))
    if s[0] > 0:
      cands.append((tails[0] * 1.5, 0))
    if cands:
      err, keep = ctx.choice(cands)
      kw["max_truncation_error"] = float(err / s[0]) if rel else float(err)
      if rel:
        kw["relative"] = True
      elif ctx.flip(0.3):
        kw["relative"] = False
  if ctx.flip(0.5):
    m = ctx.integers(1, k + 2)
    kw["max_singular_values"] = m
    keep = min(keep, m)
  return kw, keep, tails


def check_isometry(ctx, q, left, what, tol):
  """q as a matrix with its bond last (left) or first."""
  q = q.reshape(-1, q.shape[-1]) if left else q.reshape(q.shape[0], -1)
  g = q.conj().T @ q if left else q @ q.conj().T
  ctx.close(g, np.eye(g.shape[0]), what + ": not isometric", tol=tol)


def _dtype(ctx, backend):
  return ctx.choice([np.float64, np.complex128, np.float32, np.complex64]
                    if backend == "numpy" else
                    [np.float64, np.complex128, np.float32])


def _tensor(ctx, backend):
  rank = ctx.integers(2, 5)
  dims = (1, 2, 3, 4) if rank < 4 else (1, 2, 3)
  shape = [ctx.choice(dims) for _ in range(rank)]
  pivot = ctx.integers(1, rank - 1)
  dtype = _dtype(ctx, backend)
  m, n = int(np.prod(shape[:pivot])), int(np.prod(shape[pivot:]))
  mat, kind = gen_matrix(ctx, m, n, dtype)
  t = mat.reshape(shape)
  if backend == "numpy" and ctx.flip(0.3):
    t = np.asfortranarray(t)
  return t, mat, pivot, kind, dtype


def case_svd(ctx, backend="numpy"):
  t, mat, pivot, kind, dtype = _tensor(ctx, backend)
  be = backend_factory.get_backend(backend)
  s_true = np.linalg.svd(mat.astype(np.complex128), compute_uv=False)
  kw, keep, tails = plan_truncation(ctx, s_true)
  ctx.note(backend, t.shape, pivot, kind, dtype.__name__, kw)
  ctx.sig(backend, t.shape, pivot, kind, dtype.__name__, kw)
  x = be.convert_to_tensor(t)
  frozen = Frozen(tensor=x)
  if ctx.flip(0.5) or backend == "jax":
    call = ctx.choice(["kw", "pos"])
    if call == "pos" and kw:
      u, s, vh, rest = be.svd(x, pivot, kw.get("max_singular_values"),
                              kw.get("max_truncation_error"),
                              kw.get("relative", False))
    else:
      u, s, vh, rest = be.svd(x, pivot_axis=pivot, **kw)
  else:
    arg = tn.Tensor(x, backend=backend)
    res = tnlinalg.svd(arg, pivot, **kw)
    for r in res:
      ctx.check(isinstance(r, tn.Tensor) and r.backend.name == backend,
                "linalg.svd returned %s", type(r))
    u, s, vh, rest = [r.array for r in res]
  frozen.verify(ctx, "svd")
  u, s, vh, rest = [to_np(a) for a in (u, s, vh, rest)]
  tol = tolof(dtype)
  scale = (float(s_true[0]) or 1.0)
  ctx.check(u.shape == t.shape[:pivot] + (keep,), "svd: u has shape %s, kept "
            "%s expected %s (%s)", u.shape, len(s), keep, kw)
  ctx.check(vh.shape == (keep,) + t.shape[pivot:], "svd: vh has shape %s",
            vh.shape)
  ctx.check(s.shape == (keep,) and rest.shape == (len(s_true) - keep,),
            "svd: %d kept, %d discarded of %d, expected to keep %d with %s",
            len(s), len(rest), len(s_true), keep, kw)
  for name, a in (("u", u), ("s", s), ("vh", vh), ("s_rest", rest)):
    ctx.check(a.dtype == dtype, "svd: %s has dtype %s for %s", name, a.dtype,
              dtype)
  ctx.close(np.concatenate([s, rest]) / scale, s_true / scale,
            "svd: kept and discarded singular values", tol=tol)
  if keep:
    check_isometry(ctx, u, True, "svd u", tol)
    check_isometry(ctx, vh, False, "svd vh", tol)
    rec = (u.reshape(-1, keep) * s) @ vh.reshape(keep, -1)
    err = np.linalg.norm((mat - rec).astype(np.complex128))
    ctx.check(abs(err - tails[keep]) <= 50 * tol * scale,
              "svd: reconstruction error %.3g, best possible %.3g", err,
              tails[keep])
    if keep == len(s_true):
      ctx.close(rec / scale, mat / scale, "svd: reconstruction", tol=10 * tol)
  if "max_truncation_error" in kw:
    ctx.obs("truncated_by_error")
  if "max_singular_values" in kw:
    ctx.obs("truncated_by_number")
  ctx.obs("svd_" + backend)


def case_qr(ctx, backend="numpy"):
  t, mat, pivot, kind, dtype = _tensor(ctx, backend)
  be = backend_factory.get_backend(backend)
  which = ctx.choice(["qr", "rq"])
  nn = ctx.flip()
  ctx.note(backend, which, t.shape, pivot, kind, dtype.__name__, nn)
  ctx.sig(backend, which, t.shape, pivot, kind, dtype.__name__, nn)
  x = be.convert_to_tensor(t)
  frozen = Frozen(tensor=x)
  if ctx.flip() or backend == "jax":
    l, r = getattr(be, which)(x, pivot, nn)
  else:
    res = getattr(tnlinalg, which)(tn.Tensor(x, backend=backend), pivot, nn)
    l, r = [a.array for a in res]
  frozen.verify(ctx, which)
  l, r = to_np(l), to_np(r)
  k = min(mat.shape)
  tol = tolof(dtype)
  scale = (float(np.linalg.norm(mat)) or 1.0)
  ctx.eq(l.shape, t.shape[:pivot] + (k,), which + " left shape")
  ctx.eq(r.shape, (k,) + t.shape[pivot:], which + " right shape")
  ctx.check(l.dtype == dtype and r.dtype == dtype, "%s dtypes %s %s", which,
            l.dtype, r.dtype)
  lm, rm = l.reshape(-1, k), r.reshape(k, -1)
  ctx.close((lm @ rm) / scale, mat / scale, "%s (non_negative_diagonal=%s, %s)"
            ": product" % (which, nn, kind), tol=10 * tol)
  if which == "qr":
    check_isometry(ctx, l, True, "qr q", tol)
    tri, low = rm, np.tril(rm[:k, :k], -1)
  else:
    check_isometry(ctx, r, False, "rq q", tol)
    tri, low = lm, np.triu(lm[:k, :k], 1)
  ctx.close(low / scale, np.zeros_like(low), which + ": not triangular",
            tol=10 * tol)
  if nn:
    d = np.diagonal(tri)
    ctx.check(np.all(np.abs(d.imag) <= 10 * tol * scale) and
              np.all(d.real >= -10 * tol * scale),
              "%s: diagonal %s is not non-negative", which, d)
    ctx.obs("non_negative_diagonals")
  ctx.obs(which + "_" + backend)


def _node_net(ctx, backend):
  """A node with neighbours; the split must leave the rest alone."""
  dtype = _dtype(ctx, backend)
  rank = ctx.integers(2, 5)
  shape = [ctx.choice((1, 2, 3)) for _ in range(rank)]
  names = (["ax%d" % i for i in range(rank)] if ctx.flip() else None)
  node = tn.Node(ctx.array(shape, dtype), name="N", axis_names=names,
                 backend=backend)
  others = []
  for i in range(rank):
    if ctx.flip(0.4):
      o = tn.Node(ctx.array((ctx.choice((1, 2)), shape[i]), dtype),
                  name="o%d" % i, backend=backend)
      if ctx.flip():
        e = node[i] ^ o[1]
      else:
        e = o[1] ^ node[i]
      if ctx.flip():
        e.set_name("e%d" % i)
      others.append(o)
    elif ctx.flip(0.3):
      node[i].set_name("d%d" % i)
  if len(others) > 1 and ctx.flip(0.4):
    a, b = others[:2]
    if a.shape[0] == b.shape[0]:
      a[0] ^ b[0]
  return node, others, shape, dtype


def case_split(ctx, backend="numpy"):
  node, others, shape, dtype = _node_net(ctx, backend)
  rank = len(shape)
  perm = ctx.perm(rank)
  cut = ctx.integers(1, rank - 1)
  left = [node[i] for i in perm[:cut]]
  right = [node[i] for i in perm[cut:]]
  which = ctx.choice(["svd", "svd", "full", "full", "qr", "rq"])
  out = ctx.shuffled(tn.get_all_dangling([node] + others))
  before = network_value([node] + others, out)
  T = to_np(node.tensor)
  mat = np.transpose(T, perm).reshape(
      int(np.prod([shape[i] for i in perm[:cut]])), -1)
  s_true = np.linalg.svd(mat.astype(np.complex128), compute_uv=False)
  names = list(node.axis_names) if node.axis_names else None
  real_names = names if names and names[0].startswith("ax") else None
  enames = {e: e.name for e in left + right}
  tol = tolof(dtype)
  frozen = Frozen(tensor=node.tensor, left=left, right=right)
  kw = {}
  lname = rname = None
  if ctx.flip():
    lname, rname = "L", "R"
    kw.update(left_name="L", right_name="R")
  bond = None
  keep = len(s_true)
  if which in ("svd", "full"):
    tkw, keep, tails = plan_truncation(ctx, s_true)
    if keep == 0:
      tkw, keep = {}, len(s_true)
    if "max_truncation_error" in tkw:
      tkw["max_truncation_err"] = tkw.pop("max_truncation_error")
    kw.update(tkw)
  if which != "full" and ctx.flip():
    bond = "bond"
    kw["edge_name"] = bond
  if which == "full" and ctx.flip():
    kw.update(left_edge_name="lb", right_edge_name="rb", middle_name="M")
  ctx.note(backend, which, shape, perm, cut, kw)
  ctx.sig(backend, which, shape, perm, cut, sorted(kw))
  fn = {"svd": tn.split_node, "full": tn.split_node_full_svd,
        "qr": tn.split_node_qr, "rq": tn.split_node_rq}[which]
  res = fn(node, left, right, **kw)
  frozen_keys = ("left", "right")
  for k in frozen_keys:
    ctx.check(list(frozen.objs[k]) == (left if k == "left" else right),
              "split changed the caller's edge list")
  nodes = [x for x in res if isinstance(x, tn.AbstractNode)]
  L, R = nodes[0], nodes[-1]
  check_structure(ctx, nodes + others)
  ctx.check(list(L.edges[:-1]) == left, "%s: left node does not hold the left "
            "edges in order", which)
  ctx.check(list(R.edges[1:]) == right, "%s: right node does not hold the "
            "right edges in order", which)
  ctx.check(all(n.backend.name == backend for n in nodes), "backend changed")
  if which == "full":
    ctx.check(L.edges[-1] is nodes[1].edges[0] and
              nodes[1].edges[1] is R.edges[0], "full svd: bonds")
    if "middle_name" in kw:
      ctx.check(nodes[1].name == "M" and L.edges[-1].name == "lb" and
                R.edges[0].name == "rb", "full svd: names")
      if real_names:
        ctx.eq(list(L.axis_names), [real_names[i] for i in perm[:cut]] +
               ["lb"], "left axis names")
        ctx.eq(list(R.axis_names), ["rb"] + [real_names[i]
                                             for i in perm[cut:]],
               "right axis names")
        ctx.eq(list(nodes[1].axis_names), ["lb", "rb"], "middle axis names")
        ctx.check(L.get_edge("lb") is nodes[1].get_edge("lb"), "bond by name")
        ctx.obs("named_splits")
  else:
    ctx.check(L.edges[-1] is R.edges[0], "%s: factors are not joined", which)
    if bond:
      ctx.eq(L.edges[-1].name, bond, "bond name")
      if real_names:
        ctx.eq(list(L.axis_names), [real_names[i] for i in perm[:cut]] +
               [bond], "left axis names")
        ctx.eq(list(R.axis_names), [bond] + [real_names[i]
                                             for i in perm[cut:]],
               "right axis names")
        ctx.obs("named_splits")
  ctx.check({e: e.name for e in left + right} == enames, "edge names changed")
  if lname:
    ctx.check(L.name == lname and R.name == rname, "node names %s %s", L.name,
              R.name)
  l, r = to_np(L.tensor), to_np(R.tensor)
  lm, rm = l.reshape(-1, l.shape[-1]), r.reshape(r.shape[0], -1)
  scale = (float(s_true[0]) or 1.0)
  if which in ("svd", "full"):
    rest = to_np(res[-1])
    ctx.check(l.shape[-1] == keep and len(rest) == len(s_true) - keep,
              "%s kept %d and discarded %d of %d, expected to keep %d (%s)",
              which, l.shape[-1], len(rest), len(s_true), keep, kw)
    ctx.close(rest / scale, s_true[keep:] / scale, "discarded values", tol=tol)
    if which == "full":
      check_isometry(ctx, l, True, "split_node_full_svd left", tol)
      check_isometry(ctx, r, False, "split_node_full_svd right", tol)
      ctx.close(to_np(nodes[1].tensor) / scale,
                np.diag(s_true[:keep]) / scale, "middle node", tol=tol)
      rec = lm @ to_np(nodes[1].tensor) @ rm
    else:
      ctx.close((lm.conj().T @ lm) / scale, np.diag(s_true[:keep]) / scale,
                "split_node: left factor is not U sqrt(S)", tol=10 * tol)
      ctx.close((rm @ rm.conj().T) / scale, np.diag(s_true[:keep]) / scale,
                "split_node: right factor is not sqrt(S) Vh", tol=10 * tol)
      rec = lm @ rm
    err = np.linalg.norm(mat.astype(np.complex128) - rec)
    ctx.check(abs(err - tails[keep]) <= 100 * tol * scale,
              "%s: reconstruction error %.3g, best possible %.3g", which, err,
              tails[keep])
    full = keep == len(s_true)
  else:
    check_isometry(ctx, l if which == "qr" else r, which == "qr",
                   "split_node_" + which, tol)
    tri = rm if which == "qr" else lm
    k = min(mat.shape)
    z = (np.tril(tri[:k, :k], -1) if which == "qr" else
         np.triu(tri[:k, :k], 1))
    ctx.close(z / scale, np.zeros_like(z), "split_node_%s: not triangular" %
              which, tol=10 * tol)
    full = True
  if full:
    after = network_value(nodes + others, out)
    sc = (float(np.max(np.abs(before))) if before.size else 1.) or 1.0
    ctx.close(after / sc, before / sc, "network value after split", tol=30 *
              tol)
    ctx.obs("networks_compared")
  ctx.obs("split_" + which)
  ctx.obs("split_" + backend)


def case_node_linalg(ctx):
  """linalg functions on matrices: eigh, inv, expm against definitions."""
  backend = ctx.choice(["numpy", "tensorflow"])
  be = backend_factory.get_backend(backend)
  n = ctx.integers(1, 5)
  dtype = ctx.choice([np.float64, np.complex128])
  a = ctx.array((n, n), dtype)
  h = a + a.conj().T
  w, v = be.eigh(be.convert_to_tensor(h))
  w, v = to_np(w), to_np(v)
  ctx.close(h @ v, v * w, "eigh: eigenpairs")
  ctx.close(v.conj().T @ v, np.eye(n), "eigh: unitary")
  b = a + 4 * np.eye(n)
  ctx.close(to_np(be.inv(be.convert_to_tensor(b))) @ b, np.eye(n), "inv",
            tol=1e-7)
  ctx.sig(backend, n, dtype.__name__)
  ctx.obs("matrix_functions")


def case_tf(ctx):
  ctx.choice([case_svd, case_qr, case_split])(ctx, "tensorflow")


def case_jax(ctx):
  ctx.choice([case_svd, case_qr, case_split])(ctx, "jax")


def case_rejects(ctx):
  node, others, shape, _ = _node_net(ctx, "numpy")
  edges = list(node.edges)
  before = nets.fingerprint([node] + others)
  foreign = tn.Node(np.ones(2))
  cut = ctx.integers(1, len(edges) - 1)
  fn = ctx.choice([tn.split_node, tn.split_node_full_svd, tn.split_node_qr,
                   tn.split_node_rq])
  bad = [("missing edge", edges[:cut], edges[cut:-1] if cut < len(edges) - 1
          else []),
         ("foreign edge", edges[:cut], edges[cut:] + [foreign[0]]),
         ("repeated edge", edges[:cut] + [edges[cut]], edges[cut:])]
  what, l, r = ctx.choice(bad)
  ctx.rejects(lambda: fn(node, l, r), "%s with %s" % (fn.__name__, what))
  ctx.check(nets.fingerprint([node] + others) == before,
            "%s with %s: rejected, but the network changed", fn.__name__, what)
  ctx.sig(fn.__name__, what, shape)
  ctx.obs("reject_cases")


CHECK = core.Check(
    "C05",
    [
        core.Group("svd", case_svd, 2500, 40000),
        core.Group("qr", case_qr, 2000, 30000),
        core.Group("split", case_split, 2000, 30000),
        core.Group("matrix", case_node_linalg, 100, 1000),
        core.Group("rejects", case_rejects, 300, 3000),
        core.Group("tf", case_tf, 400, 4000),
        core.Group("jax", case_jax, 200, 1500),
    ],
    rule="Tensors of rank 2-5 with generic, low-rank, degenerate, scaled, "
    "triangular and zero spectra, random pivots/edge partitions and truncation "
    "requests whose outcome is computed from the exact spectrum; distinct by "
    "shape, pivot, spectrum kind and options.",
    required=("svd_numpy", "svd_tensorflow", "svd_jax", "qr_numpy", "rq_numpy",
              "qr_tensorflow", "rq_tensorflow", "split_svd", "split_full",
              "split_qr", "split_rq", "truncated_by_error",
              "truncated_by_number", "named_splits", "networks_compared",
              "non_negative_diagonals"),
    setup=nets.setup_jax)
