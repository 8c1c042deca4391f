"""C07: the Tensor class and the linalg functions mirror dense array
algebra."""
import numpy as np
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from tensornetwork.linalg import initialization, linalg, node_linalg
from tensornetwork.linalg import operations

from tnv import core, nets
from tnv.checks import c06
from tnv.dense import Frozen, esum, to_np

BACKENDS = c06.BACKENDS
FLOATS = c06.FLOATS


def tol_of(dt):
  return 5e-4 if np.dtype(dt) in (np.float32, np.complex64) else 1e-9


def pick(ctx):
  return ctx.choice(["numpy"] * 3 + ["tensorflow", "jax"])


def tensor(ctx, a, b):
  """A Tensor for `a` by one of the documented ways."""
  if b == "numpy" and a.ndim and ctx.flip(0.2):
    a = np.asfortranarray(a)
  if ctx.flip(0.3):
    return tn.Tensor(a, backend=backend_factory.get_backend(b))
  if ctx.flip(0.2):
    with tn.DefaultBackend(b):
      return tn.Tensor(a)
  return tn.Tensor(a, backend=b)


def is_tensor(ctx, t, want, b, what, dt=True, tol=None):
  ctx.check(isinstance(t, tn.Tensor), "%s returned %s", what, type(t))
  ctx.check(t.backend.name == b, "%s: backend %s, expected %s", what,
            t.backend.name, b)
  got = to_np(t.array)
  ctx.close(got, want, what, tol=tol or tol_of(want.dtype))
  ctx.eq(tuple(t.shape), tuple(want.shape), what + ": Tensor.shape")
  ctx.eq(int(t.size), int(want.size), what + ": Tensor.size")
  ctx.eq(int(t.ndim), int(want.ndim), what + ": Tensor.ndim")
  if dt:
    ctx.check(np.dtype(got.dtype) == want.dtype, "%s: dtype %s, expected %s",
              what, got.dtype, want.dtype)


class Namespace:
  """The functions of the tensornetwork and linalg namespaces, under the
  names the backend primitives have."""

  def __init__(self, name, module):
    self.name = name
    m = module
    self.tensordot = m.tensordot
    self.reshape = m.reshape
    self.transpose = m.transpose
    self.slice = m.take_slice
    self.outer_product = m.outer
    self.einsum = m.einsum
    self.diagonal = m.diagonal
    self.diagflat = m.diagflat
    self.trace = m.trace
    self.pivot = m.pivot
    for f in ("sin", "cos", "exp", "log", "sqrt", "abs", "sign", "conj"):
      setattr(self, f, getattr(m, f))
    lin = tn if module is tn else linalg
    self.norm, self.inv, self.expm, self.eigh = (lin.norm, lin.inv, lin.expm,
                                                 lin.eigh)
    self.matmul = lambda x, y: x @ y
    self.addition = lambda x, y: x + y
    self.subtraction = lambda x, y: x - y
    self.multiply = lambda x, y: x * y
    self.divide = lambda x, y: x / y


OPS = ("tensordot", "reshape", "transpose", "slice", "outer", "einsum",
       "norm", "diagonal", "diagflat", "trace", "pivot", "elementwise",
       "matfun", "matmul", "arith", "eigh")


def case_functions(ctx):
  name = ctx.choice(OPS)
  dt = ctx.choice(FLOATS)
  inputs, call, oracle, sig = c06.OPS[name](ctx, dt)
  with np.errstate(all="ignore"):
    want = np.asarray(oracle(*[np.array(x) for x in inputs]))
  b = pick(ctx)
  if b == "tensorflow" and any(x.size == 0 for x in inputs):
    b = "numpy"
  ts = [tensor(ctx, x, b) for x in inputs]
  frozen = Frozen(**{"arg%d" % i: t for i, t in enumerate(ts)})
  ns = Namespace(b, tn if ctx.flip() else operations)
  what = "%s(%s) on %s %s" % (name, sig, b, np.dtype(dt).name)
  ctx.note(what, [x.shape for x in inputs])
  ctx.sig(what, [x.shape for x in inputs])
  with np.errstate(all="ignore"):
    res = call(ns, *ts)
  frozen.verify(ctx, what)
  tol = tol_of(dt) * (20 if name == "matfun" else 1)
  if name == "norm" or not isinstance(res, tn.Tensor):
    # norm returns the backend's scalar; TF diagonal/trace rejections
    ctx.close(to_np(res), want, what, tol=tol)
  else:
    is_tensor(ctx, res, want, b, what, tol=tol)
  ctx.obs("fn_" + name)


def case_methods(ctx):
  dt = ctx.choice(FLOATS)
  b = pick(ctx)
  s = c06.shape(ctx, 0, 4)
  a = ctx.array(s, dt)
  t = tensor(ctx, a, b)
  frozen = Frozen(t=t)
  perm = ctx.perm(len(s)) if ctx.flip(0.7) else None
  new, left = [], a.size
  for p in (2, 3):
    while left % p == 0 and left > 1:
      new.append(p)
      left //= p
  new = ctx.shuffled(new + [1] * ctx.integers(0, 2))
  table = {
      "T": (lambda: t.T, a.T),
      "H": (lambda: t.H, a.T.conj()),
      "conj": (lambda: t.conj(), a.conj()),
      "conjugate": (lambda: t.conjugate(), a.conj()),
      "copy": (lambda: t.copy(), a),
      "flatten": (lambda: t.flatten(), a.ravel()),
      "ravel": (lambda: t.ravel(), a.ravel()),
      "squeeze": (lambda: t.squeeze(), a.squeeze()),
      "reshape": (lambda: t.reshape(new), a.reshape(new)),
      "reshape_tuple": (lambda: t.reshape(tuple(new)), a.reshape(new)),
      "transpose": (lambda: t.transpose(perm), a.transpose(perm)),
      "hconj": (lambda: t.hconj(perm), a.conj().transpose(perm)),
      "fn_hconj": (lambda: tn.hconj(t, perm), a.conj().transpose(perm)),
      "fn_conj": (lambda: tn.conj(t), a.conj()),
      "fn_transpose": (lambda: tn.transpose(t, perm), a.transpose(perm)),
      "fn_reshape": (lambda: tn.reshape(t, new), a.reshape(new)),
      "identity": (lambda: t, a),
  }
  chain = ctx.subset(sorted(table), ctx.integers(1, 4))
  for k in chain:
    fn, want = table[k]
    what = "Tensor.%s of %s %s on %s" % (k, s, np.dtype(dt).name, b)
    r = fn()
    is_tensor(ctx, r, np.asarray(want), b, what)
    if k in ("copy", "flatten") and b == "numpy" and a.size:
      ctx.check(not np.shares_memory(r.array, t.array), "%s shares memory "
                "with its source", what)
    frozen.verify(ctx, what)
    ctx.obs("method_" + k)
    ctx.sig(k)
  ctx.eq(tuple(tn.shape(t)), tuple(s), "tn.shape")
  ctx.check(np.dtype(to_np(t.array).dtype) == np.dtype(dt), "dtype changed")
  ctx.check((t.dtype == np.dtype(dt)) or t.dtype == to_np(t.array).dtype,
            "Tensor.dtype is %s, array has %s", t.dtype, dt)
  ctx.sig(s, b, np.dtype(dt).name)


def case_operators(ctx):
  dt = ctx.choice(FLOATS)
  b = pick(ctx)
  s = c06.shape(ctx, 0, 3)
  a = ctx.array(s, dt)
  t = tensor(ctx, a, b)
  cplx = np.dtype(dt).kind == "c"
  x = ctx.choice([2.0, -0.5, 3.25, 1.0])
  if cplx and ctx.flip():
    x = ctx.choice([1j, 2. - 0.5j])
  c = ctx.array(tuple(1 if ctx.flip(0.2) else d for d in s), dt)
  c = c + np.where(np.abs(c) < 0.3, 1, 0).astype(dt)
  u = tensor(ctx, c, b)
  raw = u.array
  frozen = Frozen(t=t, u=u)
  table = {
      "t*x": (lambda: t * x, a * x), "x*t": (lambda: x * t, x * a),
      "t/x": (lambda: t / x, a / x), "t+x": (lambda: t + x, a + x),
      "x+t": (lambda: x + t, x + a), "t-x": (lambda: t - x, a - x),
      "x-t": (lambda: x - t, x - a), "t*u": (lambda: t * u, a * c),
      "t/u": (lambda: t / u, a / c), "t+u": (lambda: t + u, a + c),
      "t-u": (lambda: t - u, a - c), "u-t": (lambda: u - t, c - a),
      "t*raw": (lambda: t * raw, a * c), "t+raw": (lambda: t + raw, a + c),
      "t-raw": (lambda: t - raw, a - c), "t/raw": (lambda: t / raw, a / c),
      "(t+u)*x-t": (lambda: (t + u) * x - t, (a + c) * x - a),
  }
  for k in ctx.subset(sorted(table), 3):
    fn, want = table[k]
    what = "%s with x=%s on %s %s %s" % (k, x, b, s, np.dtype(dt).name)
    want = np.asarray(want).astype(dt)
    is_tensor(ctx, fn(), want, b, what)
    frozen.verify(ctx, what)
    ctx.obs("operator_" + k.replace("(t+u)*x-t", "mixed"))
    ctx.sig(k)
  ctx.sig(s, x, b, np.dtype(dt).name)


def case_kron(ctx):
  b = pick(ctx)
  dt = ctx.choice(FLOATS)
  pa, pb = ctx.integers(0, 2), ctx.integers(0, 2)
  sa, sb = [ctx.choice((1, 2, 3)) for _ in range(2 * pa)], [
      ctx.choice((1, 2, 3)) for _ in range(2 * pb)]
  if ctx.flip(0.5):  # equal shapes would hide mixed-up factors
    sb = list(sa)
    pb = pa
  a, c = ctx.array(sa, dt), ctx.array(sb, dt)
  ta, tc = tensor(ctx, a, b), tensor(ctx, c, b)
  frozen = Frozen(a=ta, c=tc)
  r = tn.kron(ta, tc)
  frozen.verify(ctx, "kron")
  prod = lambda v: int(np.prod(v))
  ma = a.reshape(prod(sa[:pa]), prod(sa[pa:]))
  mc = c.reshape(prod(sb[:pb]), prod(sb[pb:]))
  want = np.kron(ma, mc).reshape(sa[:pa] + sb[:pb] + sa[pa:] + sb[pb:])
  is_tensor(ctx, r, want, b, "kron of %s and %s on %s" % (sa, sb, b))
  if ctx.flip(0.3):
    odd = tensor(ctx, ctx.array((2,) * ctx.choice([1, 3]), dt), b)
    ctx.rejects(lambda: tn.kron(ta, odd), "kron with an odd order")
    ctx.rejects(lambda: tn.kron(odd, ta), "kron with an odd order")
  # the node version, any number of factors
  k = ctx.integers(1, 3)
  mats = []
  for _ in range(k):
    p = ctx.integers(1, 2)
    mats.append(ctx.array([ctx.choice((1, 2)) for _ in range(2 * p)], dt))
  nodes = [tn.Node(m, backend=b) for m in mats]
  ins, outs, labels = [], [], []
  for i, m in enumerate(mats):
    lab = [(i, j) for j in range(m.ndim)]
    labels.append(lab)
    ins += lab[:m.ndim // 2]
    outs += lab[m.ndim // 2:]
  edges = [e for n in nodes for e in n.edges[:n.get_rank() // 2]] + [
      e for n in nodes for e in n.edges[n.get_rank() // 2:]]
  res = node_linalg.kron(nodes)
  ctx.close(to_np(res), esum(mats, labels, ins + outs), "node kron on " + b,
            tol=tol_of(dt))
  ctx.check(all(x is y for x, y in zip(res.edges, edges)),
            "node kron: edges out of order")
  ctx.sig(sa, sb, b, [m.shape for m in mats])
  ctx.obs("krons")


def case_decompositions(ctx):
  b = pick(ctx)
  dt = ctx.choice(FLOATS)
  tol = 50 * tol_of(dt)
  s = c06.shape(ctx, 2, 4, dims=(1, 2, 3))
  a = ctx.array(s, dt)
  t = tensor(ctx, a, b)
  frozen = Frozen(t=t)
  p = ctx.integers(1, len(s) - 1)
  q = p
  if ctx.flip(0.3):
    p, q = -1, len(s) - 1
  ns = tn if ctx.flip() else linalg
  l, r = int(np.prod(s[:q])), int(np.prod(s[q:]))
  m = a.reshape(l, r)
  k = min(l, r)
  kind = ctx.choice(["svd", "qr", "rq"])
  what = "%s of %s at %d on %s %s" % (kind, s, p, b, np.dtype(dt).name)
  ctx.note(what)
  use_default = p == -1 and ctx.flip()
  if kind == "svd" and hasattr(ns, "svd") or kind == "svd":
    ns = linalg
    limit = ctx.choice([None, None, 1, k, k + 2])
    err = ctx.choice([None, None, 0.6])
    rel = ctx.flip()
    kw = dict(max_singular_values=limit, max_truncation_error=err,
              relative=rel)
    out = ns.svd(t, **kw) if use_default else ns.svd(t, p, **kw)
    ctx.check(isinstance(out, tuple) and len(out) == 4, "%s: %s", what,
              type(out))
    for x in out:
      ctx.check(isinstance(x, tn.Tensor) and x.backend.name == b,
                "%s: not a Tensor on the backend", what)
    u, sv, vh, rest = [to_np(x) for x in out]
    full = np.linalg.svd(m, compute_uv=False)
    ctx.close(np.concatenate([sv, rest]).real, full, what + ": kept and "
              "discarded values", tol=tol)
    keep = k if limit is None else min(limit, k)
    if err is not None:
      bound = err * full[0] if rel else err
      tails = np.sqrt(np.cumsum(full[::-1]**2))
      if np.min(np.abs(tails - bound)) > 1e-4:
        keep = min(keep, int(np.sum(tails > bound)))
      else:
        keep = len(sv)
    ctx.eq(len(sv), keep, what + ": number of kept values")
    ctx.close(u.reshape(l, -1) * sv @ vh.reshape(-1, r),
              _best(m, len(sv)), what + ": product", tol=tol)
    ctx.eq(u.shape, tuple(s[:q]) + (keep,), what + ": shape of u")
    ctx.eq(vh.shape, (keep,) + tuple(s[q:]), what + ": shape of vh")
  else:
    nn = ctx.flip()
    f = getattr(ns, kind)
    out = f(t, non_negative_diagonal=nn) if use_default else f(
        t, p, non_negative_diagonal=nn)
    for x in out:
      ctx.check(isinstance(x, tn.Tensor) and x.backend.name == b,
                "%s: not a Tensor on the backend", what)
    x, y = [to_np(v) for v in out]
    ctx.eq(x.shape, tuple(s[:q]) + (k,), what + ": shape of the left factor")
    ctx.eq(y.shape, (k,) + tuple(s[q:]), what + ": shape of the right factor")
    x, y = x.reshape(l, k), y.reshape(k, r)
    ctx.close(x @ y, m, what + ": product", tol=tol)
    iso = x.conj().T @ x if kind == "qr" else y @ y.conj().T
    ctx.close(iso, np.eye(k), what + ": isometry", tol=tol)
    tri = y if kind == "qr" else x.T  # R of RQ is upper from the bottom right
    if nn:
      d = np.diagonal(y if kind == "qr" else x)
      ctx.check(np.all(np.abs(d.imag) < tol) and np.all(d.real > -tol),
                "%s: diagonal %s", what, d)
    del tri
  frozen.verify(ctx, what)
  ctx.sig(what)
  ctx.obs("decomposition_" + kind)


def _best(m, k):
  u, s, v = np.linalg.svd(m, full_matrices=False)
  return u[:, :k] * s[:k] @ v[:k]


def case_initialisers(ctx):
  b = pick(ctx)
  dt = ctx.choice(FLOATS)
  s = c06.shape(ctx, 0, 3)
  shp = ctx.choice([tuple, list])(s)
  n, m = ctx.integers(1, 4), ctx.choice([None, 1, 2, 4])
  want = {"ones": np.ones(s, dt), "zeros": np.zeros(s, dt),
          "eye": np.eye(n, m, dtype=dt)}
  bdt = dt if b != "tensorflow" else backend_factory.get_backend(
      b).convert_to_tensor(np.zeros(1, dt)).dtype
  mode = ctx.choice(["name", "object", "default"])
  import contextlib
  kw = {"name": {"backend": b},
        "object": {"backend": backend_factory.get_backend(b)},
        "default": {}}[mode]
  with (tn.DefaultBackend(b) if mode == "default" else
        contextlib.nullcontext()):
    layer = ctx.choice(["tensor", "tensor", "node", "like"])
    kind = ctx.choice(sorted(want))
    what = "%s-level %s on %s by %s %s" % (layer, kind, b, mode,
                                           np.dtype(dt).name)
    if layer == "like":
      src = ctx.choice(["Tensor", "Tensor", "array"])
      f = ctx.choice(["ones_like", "zeros_like"])
      what = "%s of a %s on %s by %s" % (f, src, b, mode)
      arr = ctx.array(s, dt)
      obj = tn.Tensor(arr, backend=b) if src == "Tensor" else (
          arr if ctx.flip() else backend_factory.get_backend(
              b).convert_to_tensor(arr))
      give = ctx.flip()
      other = ctx.choice(FLOATS)
      odt = other if b != "tensorflow" else backend_factory.get_backend(
          b).convert_to_tensor(np.zeros(1, other)).dtype
      r = getattr(initialization, f)(obj, **(dict(dtype=odt) if give else {}),
                                     **kw)
      exp = (np.ones if f == "ones_like" else np.zeros)(
          s, other if give else dt)
      is_tensor(ctx, r, exp, b, what, dt=give or src == "Tensor")
    elif layer == "node":
      names = None
      f = getattr(node_linalg, kind)
      rank = 2 if kind == "eye" else len(s)
      if ctx.flip():
        names = ["x%d" % i for i in range(rank)]
      args = (n,) if kind == "eye" else (shp,)
      if kind == "eye":
        kw = dict(kw, M=m)
      r = f(*args, dtype=bdt, name="N", axis_names=names, **kw)
      ctx.check(isinstance(r, tn.Node), "%s returned %s", what, type(r))
      ctx.eq(r.backend.name, b, what + ": backend")
      ctx.close(to_np(r), want[kind], what)
      ctx.eq(to_np(r).dtype, np.dtype(dt), what + ": dtype")
      ctx.eq(r.name, "N", what + ": name")
      ctx.check(len(r.edges) == rank and all(e.is_dangling()
                                             for e in r.edges),
                "%s: edges", what)
      if names:
        ctx.eq(list(r.axis_names), names, what + ": axis names")
    else:
      f = getattr(ctx.choice([tn, initialization]), kind)
      if kind == "eye":
        r = f(n, dtype=bdt, M=m, **kw)
      else:
        r = f(shp, dtype=bdt, **kw)
      is_tensor(ctx, r, want[kind], b, what)
      if ctx.flip(0.3):
        d = f(n, **kw) if kind == "eye" else f(shp, **kw)
        ctx.eq(to_np(d).dtype, np.dtype(np.float64), what +
               ": default dtype")
    # random ones: shape, dtype, range (their statistics are C25)
    f = getattr(ctx.choice([tn, initialization]), "random_uniform")
    kw.pop("M", None)
    lo = ctx.choice([-1.0, 0.0, 2.0])
    r = f(shp, dtype=bdt, boundaries=(lo, lo + 1), **kw)
    v = to_np(r)
    ctx.eq(v.shape, tuple(s), "random_uniform shape")
    ctx.eq(v.dtype, np.dtype(dt), "random_uniform dtype")
    for part in (v.real, v.imag) if np.dtype(dt).kind == "c" else (v,):
      ctx.check(np.all(part >= lo - 1e-6) and np.all(part <= lo + 1 + 1e-6),
                "random_uniform outside [%s, %s]: %s", lo, lo + 1, part)
    g = getattr(ctx.choice([tn, initialization]), "randn")
    v = to_np(g(shp, dtype=bdt, **kw))
    ctx.eq((v.shape, v.dtype), (tuple(s), np.dtype(dt)), "randn")
  ctx.sig(what, s)
  ctx.obs("initialiser_" + layer)


def case_node_linalg(ctx):
  b = pick(ctx)
  dt = ctx.choice(FLOATS)
  s = c06.shape(ctx, 0, 4)
  a = ctx.array(s, dt)
  names = ["ax%d" % i for i in range(len(s))]
  node = tn.Node(a, name="orig", axis_names=names, backend=b)
  partner = None
  if s and ctx.flip():
    partner = tn.Node(ctx.array((s[0],), dt), backend=b)
    node[0] ^ partner[0]
  frozen = Frozen(node=node)
  nm = ctx.choice([None, "new"])
  an = ctx.choice([None, ["y%d" % i for i in range(len(s))]])
  kind = ctx.choice(["norm", "conj", "transpose"])
  what = "node %s of %s on %s %s" % (kind, s, b, np.dtype(dt).name)
  if kind == "norm":
    ctx.close(to_np(node_linalg.norm(node)), np.linalg.norm(a), what,
              tol=tol_of(dt))
  elif kind == "conj":
    r = node_linalg.conj(node, name=nm, axis_names=an)
    ctx.close(to_np(r), a.conj(), what)
    ctx.eq(to_np(r).dtype, a.dtype, what + ": dtype")
    ctx.eq(list(r.axis_names), an or names, what + ": axis names")
    ctx.check(all(e.is_dangling() for e in r.edges), "%s: edges", what)
  else:
    p = ctx.perm(len(s))
    arg = [names[i] if ctx.flip() else (i - len(s) if False else i)
           for i in p]
    r = node_linalg.transpose(node, arg, name=nm, axis_names=an)
    ctx.close(to_np(r), a.transpose(p), what)
    ctx.eq(list(r.axis_names), an or [names[i] for i in p],
           what + ": axis names")
    ctx.check(r is not node and all(e.is_dangling() and e.node1 is r and
                                    e.axis1 == i
                                    for i, e in enumerate(r.edges)),
              "%s: edges", what)
    if nm:
      ctx.eq(r.name, nm, what + ": name")
  frozen.verify(ctx, what)
  if partner is not None:
    ctx.check(node[0].node2 is partner or node[0].node1 is partner,
              "%s disturbed the original network", what)
  ctx.sig(what)
  ctx.obs("node_" + kind)


def case_builder(ctx):
  """The t(labels) @ u(labels) notation."""
  b = pick(ctx)
  dt = ctx.choice(FLOATS)
  n = ctx.integers(1, 3)
  ranks = [ctx.integers(1, 3) for _ in range(n)]
  slots = [(i, j) for i in range(n) for j in range(ranks[i])]
  slots = ctx.shuffled(slots)
  lab, dims = {}, {}
  nxt, out = 1, -1
  while slots:
    x = slots.pop()
    d = ctx.choice((1, 2, 3))
    if slots and ctx.flip(0.6):
      y = slots.pop()
      lab[x] = lab[y] = nxt
      dims[x] = dims[y] = d
      nxt += 1
    else:
      lab[x] = out
      dims[x] = d
      out -= 1
  arrays = [ctx.array([dims[(i, j)] for j in range(ranks[i])], dt)
            for i in range(n)]
  labels = [[lab[(i, j)] for j in range(ranks[i])] for i in range(n)]
  ts = [tensor(ctx, a, b) for a in arrays]
  frozen = Frozen(**{"t%d" % i: t for i, t in enumerate(ts)})
  built = ts[0](*labels[0])
  parts = [built]
  for t, l in zip(ts[1:], labels[1:]):
    nxt_b = t(*l)
    built = built @ nxt_b
    parts.append(nxt_b)
  with tn.DefaultBackend(b):
    res = tn.finalize(built)
    again = tn.finalize(built)
  for p, l in zip(parts, labels):
    ctx.check(isinstance(p, tn.NconBuilder), "calling a Tensor: %s", type(p))
    ctx.eq(p.axes, [l], "builder labels")
  want = esum(arrays, labels, list(range(-1, out, -1)))
  is_tensor(ctx, res, np.asarray(want).astype(dt), b, "finalize of %s" %
            labels)
  ctx.close(to_np(again), to_np(res), "finalize repeated", tol=1e-5)
  frozen.verify(ctx, "finalize")
  ctx.sig(labels, b)
  ctx.obs("builders")


def case_mixed(ctx):
  b1, b2 = ctx.subset(BACKENDS, 2)
  mk = lambda b: tn.Tensor(np.eye(2) + 1, backend=b)
  x, y = mk(b1), mk(b2)
  sq = tn.Tensor(np.ones((2, 2)), backend=b1)
  bad = {
      "+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
      "/": lambda: x / y, "@": lambda: x @ y,
      "tensordot": lambda: tn.tensordot(x, y, 1),
      "outer": lambda: tn.outer(x, y), "kron": lambda: tn.kron(x, y),
      "einsum": lambda: tn.einsum("ab,bc->ac", x, y, optimize=True),
      "einsum of three": lambda: tn.einsum("ab,bc,cd->ad", x, sq, y,
                                           optimize=True),
      "ncon": lambda: tn.ncon([x, y], [[-1, 1], [1, -2]], backend=b1),
      "ncon of backend two": lambda: tn.ncon([x, y], [[-1, 1], [1, -2]],
                                             backend=b2),
      "unknown backend": lambda: tn.Tensor(np.ones(2), backend="nobackend"),
      "unknown backend initialiser": lambda: tn.ones((2,), backend="nope"),
  }
  k = ctx.choice(sorted(bad))
  ctx.rejects(bad[k], "%s of Tensors on %s and %s" % (k, b1, b2))
  ctx.sig(k, b1, b2)
  ctx.obs("mixed_rejected")


CHECK = core.Check(
    "C07",
    [
        core.Group("functions", case_functions, 3000, 40000),
        core.Group("methods", case_methods, 1200, 15000),
        core.Group("operators", case_operators, 1200, 15000),
        core.Group("kron", case_kron, 400, 5000),
        core.Group("decompositions", case_decompositions, 800, 10000),
        core.Group("initialisers", case_initialisers, 800, 8000),
        core.Group("node_linalg", case_node_linalg, 500, 6000),
        core.Group("builder", case_builder, 400, 5000),
        core.Group("mixed", case_mixed, 200, 1000),
    ],
    rule="Random shapes (rank 0-4), dtypes, layouts and backends; the "
    "wrapped array, shape, size, order, backend and dtype of every result "
    "compared with the NumPy expression; distinct by function, parameters, "
    "shape, dtype and backend.",
    required=tuple("fn_" + k for k in OPS) +
    ("krons", "builders", "mixed_rejected", "initialiser_tensor",
     "initialiser_node", "initialiser_like", "node_norm", "node_conj",
     "node_transpose", "decomposition_svd", "decomposition_qr",
     "decomposition_rq", "method_squeeze", "method_H", "operator_x-t"),
    setup=nets.setup_jax)
