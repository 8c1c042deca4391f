"""C27: tracing and differentiation see the same network as eager execution.

A plan evaluates one random network in one of many ways through the library;
the same plan runs eagerly, under jax.jit / vmap / the library's jit, in
tf.function with known and unknown dimensions, and under autodiff.  The oracle
is numpy's einsum of the labelled network.
"""
import warnings

import numpy as np
import tensornetwork as tn
from tensornetwork import contractors
from tensornetwork.quantum import quantum as Q

from tnv import core, nets
from tnv.dense import to_np

LIB = {}


# ----------------------------------------------------------------------- plans


class Plan:
  """A labelled network and one way of evaluating it with the library."""

  def __init__(self, ctx, closed=False, style=None, hyper=True):
    self.n = n = ctx.integers(1, 5)
    self.labels = [[] for _ in range(n)]
    self.pool = [1, 2, 2, 3]
    lab = iter(range(1, 40))
    for i in range(1, n):
      for _ in range(ctx.choice([1, 1, 1, 2])):
        self.join([ctx.integers(0, i - 1), i], next(lab))
    for _ in range(ctx.integers(0, 2)):
      if n > 1:
        self.join(ctx.subset(range(n), 2), next(lab))
    if ctx.flip(0.25):
      i = ctx.integers(0, n - 1)
      self.join([i, i], next(lab))
    self.hyper = []
    if hyper and n >= 2 and ctx.flip(0.3):
      l = next(lab)
      at = ctx.subset(range(n), ctx.integers(2, min(n, 3)))
      if ctx.flip(0.3):
        at = at + [at[0]]
      if len(at) > 2:
        self.join(at, l)
        self.hyper.append(l)
    self.out = []
    if not closed:
      for k in range(ctx.integers(0, 3)):
        self.join([ctx.integers(0, n - 1)], -(k + 1))
        self.out.append(-(k + 1))
      self.out = ctx.shuffled(self.out)
    elif all(not l for l in self.labels):
      self.join([0, 0], next(lab))
    self.labels = [ctx.shuffled(l) for l in self.labels]
    self.all = sorted({l for ls in self.labels for l in ls})
    inner = [l for l in self.all if l > 0]
    styles = ["contractor", "contractor", "pairwise", "edges", "flatten",
              "split", "operators"]
    if not self.hyper:
      styles += ["ncon", "ncon", "einsum"]
    self.style = style or ctx.choice(styles)
    self.con = ctx.shuffled(inner) if ctx.flip() else None
    self.alg = ctx.choice(["greedy", "auto", "optimal", "branch", "custom"])
    self.seq = [ctx.integers(0, 99) for _ in range(40)]
    self.split = (ctx.choice(["svd", "qr", "rq", "full"]),
                  ctx.integers(0, 99))
    self.conj = [ctx.flip(0.15) for _ in range(n)]
    self.key = (self.style, self.alg, tuple(map(tuple, self.labels)),
                tuple(self.out))

  def join(self, where, label):
    for i in where:
      self.labels[i].append(label)

  def dims(self, ctx):
    return {l: ctx.choice(self.pool) for l in self.all}

  def arrays(self, ctx, dims, dtype):
    return [ctx.array([dims[l] for l in ls], dtype) for ls in self.labels]

  # -- oracle

  def value(self, arrays):
    ops = []
    for a, ls, c in zip(arrays, self.labels, self.conj):
      ops += [np.conj(a) if c else a, [self.all.index(l) for l in ls]]
    return np.einsum(*ops, [self.all.index(l) for l in self.out],
                     optimize=True)

  def env(self, arrays, k):
    """The network with tensor k removed (an array of the shape of k)."""
    ops = []
    for i, (a, ls, c) in enumerate(zip(arrays, self.labels, self.conj)):
      if i != k:
        ops += [np.conj(a) if c else a, [self.all.index(l) for l in ls]]
    seen, out, extra = {}, [], len(self.all)
    for l in self.labels[k]:
      x = self.all.index(l)
      d = arrays[k].shape[len(out)]
      ops += [np.eye(d), [x, extra]]
      out.append(extra)
      extra += 1
      seen[l] = x
    if not ops:
      return np.array(1.0)
    return np.einsum(*ops, out, optimize=True)

  # -- the library

  def run(self, be, arrays):
    ts = []
    B = tn.backends.backend_factory.get_backend(be)
    for a, c in zip(arrays, self.conj):
      ts.append(B.conj(B.convert_to_tensor(a)) if c else
                B.convert_to_tensor(a))
    if self.style == "ncon":
      if not self.out and not self.all:
        return ts[0]
      r = tn.ncon(ts, self.labels, con_order=self.con,
                  out_order=list(self.out) or None, backend=be)
      return r
    if self.style == "einsum":
      ch = {l: "abcdefghijklmnopqrstuvwxyz"[i] for i, l in enumerate(self.all)}
      expr = ",".join("".join(ch[l] for l in ls) for ls in self.labels)
      return tn.einsum(expr + "->" + "".join(ch[l] for l in self.out),
                       *[tn.Tensor(t, backend=be) for t in ts],
                       optimize=True).array
    nodes = [tn.Node(t, backend=be, name="t%d" % i) for i, t in enumerate(ts)]
    where = {}
    for node, ls in zip(nodes, self.labels):
      for ax, l in enumerate(ls):
        where.setdefault(l, []).append((node, ax))
    out = [where[l][0][0][where[l][0][1]] for l in self.out]
    for l, ends in where.items():
      if l in self.hyper:
        n0, a0 = ends[0]
        c = tn.CopyNode(len(ends), n0.shape[a0], backend=be,
                        dtype=np.dtype(str(to_dtype(n0))).type)
        for i, (node, ax) in enumerate(ends):
          tn.connect(node[ax], c[i])
        nodes.append(c)
      elif l > 0:
        (n1, a1), (n2, a2) = ends
        tn.connect(n1[a1], n2[a2])
    if self.style == "contractor":
      f = getattr(contractors, self.alg) if self.alg != "custom" else \
          contractors.greedy
      if self.alg == "branch":
        return contractors.branch(nodes, output_edge_order=out, nbranch=1
                                  ).tensor
      return f(nodes, output_edge_order=out).tensor
    if self.style == "split":
      nodes = self.split_one(nodes)
      return contractors.greedy(nodes, output_edge_order=out).tensor
    if self.style == "edges":
      nodes = list(nodes)
      step = 0
      while True:
        es = sorted((e for e in tn.get_all_nondangling(nodes)),
                    key=lambda e: (e.node1.name or "", e.axis1, e.axis2))
        if not es:
          break
        e = es[self.seq[step % 40] % len(es)]
        step += 1
        gone = {e.node1, e.node2}
        r = tn.contract(e, name="r%d" % step)
        nodes = [x for x in nodes if x not in gone] + [r]
      while len(nodes) > 1:
        nodes = [tn.outer_product(nodes[0], nodes[1], name="o")] + nodes[2:]
      return nodes[0].reorder_edges(out).tensor
    # pairwise, flatten, operators
    nodes = list(nodes)
    if self.style == "flatten":
      tn.flatten_all_edges(nodes)
    step = 0
    while len(nodes) > 1:
      i = self.seq[step % 40] % len(nodes)
      x = nodes.pop(i)
      j = self.seq[(step + 7) % 40] % len(nodes)
      y = nodes.pop(j)
      step += 1
      if self.style == "operators":
        r = x @ y if tn.get_shared_edges(x, y) else tn.outer_product(x, y)
      else:
        r = tn.contract_between(x, y, allow_outer_product=True)
      nodes.append(r)
    r = nodes[0]
    r = tn.contract_trace_edges(r) if r.get_all_nondangling() else r
    return r.reorder_edges(out).tensor

  def split_one(self, nodes):
    kind, pick = self.split
    ok = [x for x in nodes if len(x.edges) >= 2 and not isinstance(
        x, tn.CopyNode) and not any(e.is_trace() for e in x.edges)]
    if not ok:
      return nodes
    x = ok[pick % len(ok)]
    cut = 1 + pick % (len(x.edges) - 1)
    es = list(x.edges)
    if pick % 2:
      es = es[::-1]
    l, r = es[:cut], es[cut:]
    if kind == "svd":
      u, v, _ = tn.split_node(x, l, r)
      new = [u, v]
    elif kind == "qr":
      new = list(tn.split_node_qr(x, l, r))
    elif kind == "rq":
      new = list(tn.split_node_rq(x, l, r))
    else:
      u, s, v, _ = tn.split_node_full_svd(x, l, r)
      new = [u, s, v]
    return [y for y in nodes if y is not x] + new


def to_dtype(node):
  d = node.dtype
  return getattr(d, "name", d)


def pick_dtype(ctx):
  return ctx.choice([np.float64, np.float64, np.complex128])


def compare(ctx, got, want, what):
  ctx.close(to_np(got), want, what, tol=1e-8)


# ------------------------------------------------------------------------- jax


def case_jax(ctx):
  import jax
  p = Plan(ctx)
  dtype = pick_dtype(ctx)
  arrays = p.arrays(ctx, p.dims(ctx), dtype)
  n = p.n
  traced = [i for i in range(n) if ctx.flip(0.7)] or [0]
  ctx.note("jax", p.key, traced)
  ctx.sig("jax", p.key, tuple(traced), str(dtype))
  box = {"arrays": arrays, "traces": 0}

  def f(*xs):
    box["traces"] += 1
    full = list(box["arrays"])
    for i, x in zip(traced, xs):
      full[i] = x
    return p.run("jax", full)

  kind = ctx.choice(["jit", "jit", "tn.jit", "tn.jit_argnum", "eval_shape",
                     "nested"])
  if kind == "tn.jit":
    if ctx.flip():
      g = tn.jit(f, backend="jax")
    else:
      with tn.DefaultBackend("jax"):
        g = tn.jit(f)
  elif kind == "tn.jit_argnum":
    at = ctx.integers(0, len(traced))

    def h(*args):
      args = list(args)
      be = args.pop(at)
      ctx.eq(str(getattr(be, "name", be)), "jax", "backend argument")
      return f(*args)

    j = tn.jit(h, backend_argnum=at)
    be = ctx.choice(["jax", tn.backends.backend_factory.get_backend("jax")])
    g = lambda *xs: j(*xs[:at], be, *xs[at:])
  elif kind == "nested":
    inner = jax.jit(f)
    g = jax.jit(lambda *xs: inner(*xs) * 1)
  elif kind == "eval_shape":
    s = jax.eval_shape(f, *[arrays[i] for i in traced])
    want = p.value(arrays)
    ctx.eq(tuple(s.shape), want.shape, "abstract evaluation: shape")
    ctx.eq(np.dtype(s.dtype), want.dtype, "abstract evaluation: dtype")
    g = f
  else:
    g = jax.jit(f)
  xs = [arrays[i] for i in traced]
  want = p.value(arrays)
  what = "%s of %s" % (kind, p.style)
  compare(ctx, f(*xs), want, "eager " + p.style)
  compare(ctx, g(*xs), want, what)
  # new values, same shapes
  xs2 = [ctx.array(x.shape, dtype) for x in xs]
  new = list(arrays)
  for i, x in zip(traced, xs2):
    new[i] = x
  before = box["traces"]
  compare(ctx, g(*xs2), p.value(new), what + " (second call)")
  if kind == "jit" and box["traces"] == before:
    ctx.obs("cached_traces")
  # new shapes: everything is traced, nothing may be remembered
  if len(traced) == n:
    arrays3 = p.arrays(ctx, p.dims(ctx), dtype)
    compare(ctx, g(*arrays3), p.value(arrays3), what + " (other shapes)")
    compare(ctx, g(*xs), want, what + " (first shapes again)")
    ctx.obs("retraced_shapes")
  ctx.obs("traced_" + p.style)
  ctx.obs("jax_" + kind)


def case_vmap(ctx):
  import jax
  p = Plan(ctx)
  dtype = pick_dtype(ctx)
  dims = p.dims(ctx)
  nb = ctx.integers(1, 4)
  in_axes, xs = [], []
  for ls in p.labels:
    s = [dims[l] for l in ls]
    if ctx.flip(0.6) or not any(a is not None for a in in_axes):
      ax = ctx.integers(0, len(s))
      s.insert(ax, nb)
      in_axes.append(ax)
    else:
      in_axes.append(None)
    xs.append(ctx.array(s, dtype))
  want = np.stack([p.value([x if a is None else np.take(x, k, axis=a)
                            for x, a in zip(xs, in_axes)]) for k in range(nb)])
  ctx.note("vmap", p.key, in_axes)
  ctx.sig("vmap", p.key, tuple(map(str, in_axes)))
  f = jax.vmap(lambda *a: p.run("jax", a), in_axes=tuple(in_axes))
  if ctx.flip(0.4):
    f = jax.jit(f)
  compare(ctx, f(*xs), want, "vmap of %s" % p.style)
  ctx.obs("vmapped")


# ------------------------------------------------------------------ TensorFlow


def case_tf(ctx):
  import tensorflow as tf
  p = Plan(ctx, hyper=False)
  dtype = pick_dtype(ctx)
  dims = p.dims(ctx)
  arrays = p.arrays(ctx, dims, dtype)
  mode = ctx.choice(["none", "batch", "labels", "labels", "axes", "all"])
  unknown = set()
  if mode == "batch":
    unknown = set(p.out[:1])
  elif mode == "labels":
    unknown = {l for l in p.all if ctx.flip(0.4)}
  elif mode == "all":
    unknown = set(p.all)
  known_axis = {}
  sig = []
  for i, ls in enumerate(p.labels):
    s = []
    for ax, l in enumerate(ls):
      u = l in unknown or (mode == "axes" and ctx.flip(0.4))
      s.append(None if u else dims[l])
      if not u:
        known_axis[l] = True
    sig.append(tf.TensorSpec(s, dtype))
  ctx.note("tf", p.key, mode)
  ctx.sig("tf", p.key, mode, str(dtype))
  counter = [0]

  def f(*xs):
    counter[0] += 1
    return p.run("tensorflow", xs)

  what = "tf.function of %s with %s unknown" % (p.style, mode)
  compare(ctx, f(*arrays), p.value(arrays), "eager " + p.style)
  g = tf.function(f, input_signature=sig)
  c = [tf.constant(a) for a in arrays]
  compare(ctx, g(*c), p.value(arrays), what)
  first = counter[0]
  for _ in range(2):
    d2 = {l: dims[l] if l in known_axis else ctx.choice([1, 2, 3, 4, 5])
          for l in p.all}
    new = p.arrays(ctx, d2, dtype)
    compare(ctx, g(*[tf.constant(a) for a in new]), p.value(new),
            what + " (same graph, other sizes)")
    if d2 != dims:
      ctx.obs("graph_other_sizes")
  ctx.check(counter[0] == first, "%s was traced again", what)
  if mode == "none" and ctx.flip(0.3):
    h = tf.function(f)
    compare(ctx, h(*c), p.value(arrays), "tf.function without a signature")
    new = p.arrays(ctx, p.dims(ctx), dtype)
    compare(ctx, h(*[tf.constant(a) for a in new]), p.value(new),
            "tf.function retraced")
    tj = tn.jit(f, backend="tensorflow")
    compare(ctx, tj(*c), p.value(arrays), "tn.jit on tensorflow")
  ctx.obs("tf_" + mode)
  ctx.obs("graph_" + p.style)


def case_tf_map(ctx):
  """tf.vectorized_map and tf.map_fn over one sample at a time."""
  import tensorflow as tf
  p = Plan(ctx, hyper=False)
  if p.style == "split":
    p.style = "pairwise"
  dtype = np.float64
  dims = p.dims(ctx)
  arrays = p.arrays(ctx, dims, dtype)
  nb = ctx.integers(1, 4)
  k = ctx.integers(0, p.n - 1)
  batch = ctx.array((nb,) + arrays[k].shape, dtype)
  want = np.stack([p.value(arrays[:k] + [b] + arrays[k + 1:]) for b in batch])
  c = [tf.constant(a) for a in arrays]
  f = lambda b: p.run("tensorflow", c[:k] + [b] + c[k + 1:])
  how = ctx.choice(["vectorized_map", "map_fn"])
  ctx.note(how, p.key)
  ctx.sig(how, p.key, k, nb)
  g = lambda x: (tf.vectorized_map if how == "vectorized_map" else tf.map_fn)(
      f, x)
  if ctx.flip():
    g = tf.function(g, input_signature=[tf.TensorSpec(
        (None,) + arrays[k].shape, dtype)])
  compare(ctx, g(tf.constant(batch)), want, "%s of %s" % (how, p.style))
  ctx.obs("tf_maps")


# ------------------------------------------------------------------- gradients


def grad_plan(ctx):
  p = Plan(ctx, closed=True, hyper=False if ctx.flip(0.6) else True)
  if p.style == "split":
    p.style = "contractor"
  dtype = pick_dtype(ctx)
  p.conj = [False] * p.n if dtype == np.complex128 else p.conj
  dims = p.dims(ctx)
  arrays = p.arrays(ctx, dims, dtype)
  # one parameter may be used in several places
  groups = list(range(p.n))
  for i in range(p.n):
    for j in range(i):
      if arrays[i].shape == arrays[j].shape and ctx.flip(0.5):
        groups[i] = groups[j]
        arrays[i] = arrays[groups[j]]
        ctx.obs("shared_parameters")
        break
  params = sorted(set(groups))
  want = {q: sum(p.env(arrays, i) for i in range(p.n) if groups[i] == q)
          for q in params}
  ctx.note("grad", p.key, groups)
  ctx.sig("grad", p.key, tuple(groups), str(dtype))
  return p, dtype, arrays, groups, params, want


def case_grad_jax(ctx):
  import jax
  p, dtype, arrays, groups, params, want = grad_plan(ctx)
  f = lambda *ps: p.run("jax", [ps[params.index(g)] for g in groups])
  wrt = ctx.subset(range(len(params)), ctx.integers(1, len(params)))
  hol = dtype == np.complex128
  kind = ctx.choice(["grad", "jit(grad)", "grad(jit)", "jvp", "vjp"])
  xs = [arrays[q] for q in params]
  what = "%s of %s" % (kind, p.style)
  if kind in ("grad", "jit(grad)", "grad(jit)"):
    h = jax.jit(f) if kind == "grad(jit)" else f
    g = jax.value_and_grad(h, argnums=tuple(wrt), holomorphic=hol)
    if kind == "jit(grad)":
      g = jax.jit(g)
    val, grads = g(*xs)
    compare(ctx, val, p.value(arrays), what + ": value")
    for w, d in zip(wrt, grads):
      compare(ctx, d, want[params[w]], what)
  elif kind == "vjp":
    val, pull = jax.vjp(f, *xs)
    compare(ctx, val, p.value(arrays), what + ": value")
    d = pull(np.asarray(val).dtype.type(2.0))
    for q, x in zip(params, d):
      compare(ctx, x, 2.0 * want[q], what)
  else:
    tan = [ctx.array(x.shape, dtype) for x in xs]
    val, d = jax.jvp(f, tuple(xs), tuple(tan))
    compare(ctx, val, p.value(arrays), what + ": value")
    compare(ctx, d, sum(np.sum(want[q] * t) for q, t in zip(params, tan)),
            what)
  ctx.obs("gradients_jax")
  ctx.stats.obs("derivatives", len(params))


def case_grad_tf(ctx):
  import tensorflow as tf
  p, dtype, arrays, groups, params, want = grad_plan(ctx)
  kind = ctx.choice(["tape", "function", "unknown"])
  xs = [tf.Variable(arrays[q]) if ctx.flip() and kind == "tape" else
        tf.constant(arrays[q]) for q in params]

  def g(*xs):
    with tf.GradientTape() as tape:
      for x in xs:
        tape.watch(x)
      val = p.run("tensorflow", [xs[params.index(g)] for g in groups])
      loss = tf.math.real(val)
    return val, tape.gradient(loss, list(xs))

  if kind == "function":
    g = tf.function(g)
  elif kind == "unknown" and not p.hyper:
    g = tf.function(g, input_signature=[tf.TensorSpec(
        [None] * x.shape.rank, dtype) for x in xs])
  what = "TensorFlow gradient (%s) of %s" % (kind, p.style)
  val, grads = g(*xs)
  compare(ctx, val, p.value(arrays), what + ": value")
  for q, d in zip(params, grads):
    ctx.check(d is not None, "%s: no gradient", what)
    # TensorFlow returns the conjugate of the holomorphic derivative
    compare(ctx, d, np.conj(want[q]), what)
  ctx.obs("gradients_tf")
  ctx.stats.obs("derivatives", len(params))


# ---------------------------------------------------------------------- splits


def case_split(ctx):
  """Decompositions under tracing, including truncation."""
  be = ctx.choice(["jax", "tensorflow"])
  dtype = pick_dtype(ctx)
  r = ctx.integers(2, 4)
  s = [ctx.integers(1, 4) for _ in range(r)]
  cut = ctx.integers(1, r - 1)
  perm = ctx.perm(r)
  a = ctx.array(s, dtype)
  keep = ctx.choice([None, 1, 2, 3])
  kind = ctx.choice(["svd", "full", "qr", "rq"])
  err = None
  if be == "tensorflow" and kind in ("svd", "full") and ctx.flip(0.4):
    err = ctx.choice([0.0, 0.3, 1.0])
    keep = None
  unknown = ctx.flip()

  def run(b, x):
    n = tn.Node(x, backend=b)
    l, rr = [n[i] for i in perm[:cut]], [n[i] for i in perm[cut:]]
    out = l + rr
    if kind == "svd":
      u, v, t = tn.split_node(n, l, rr, max_singular_values=keep,
                              max_truncation_err=err)
      return tn.contract_between(u, v, output_edge_order=out).tensor, t
    if kind == "full":
      u, sv, v, t = tn.split_node_full_svd(n, l, rr, max_singular_values=keep,
                                           max_truncation_err=err)
      S = sv.tensor
      return (tn.contract_between(u @ sv, v, output_edge_order=out).tensor, t,
              S)
    f = tn.split_node_qr if kind == "qr" else tn.split_node_rq
    x1, x2 = f(n, l, rr)
    return (tn.contract_between(x1, x2, output_edge_order=out).tensor,)

  ctx.note("split", be, kind, s, perm, cut, keep, err)
  ctx.sig("split", be, kind, tuple(s), tuple(perm), cut, keep, err, unknown)
  want = run("numpy", a)
  # near-degenerate spectra have no unique truncation
  sv = np.linalg.svd(np.transpose(a, perm).reshape(
      int(np.prod([s[i] for i in perm[:cut]])), -1), compute_uv=False)
  if keep is not None and keep < len(sv) and sv[keep - 1] - sv[keep] < 1e-6:
    raise core.Inconclusive("degenerate")
  if err is not None and np.any(np.abs(np.sqrt(np.cumsum(
      (sv**2)[::-1])) - err) < 1e-6) and err > 0:
    raise core.Inconclusive("at the threshold")
  if err == 0.0 and sv[-1] < 1e-9:
    raise core.Inconclusive("singular")
  if be == "jax":
    import jax
    f = lambda x: run("jax", x)
    kind2 = ctx.choice(["jit", "vmap", "tn.jit"])
    if kind2 == "vmap":
      got = [x[0] for x in jax.vmap(f)(a[None])]
    else:
      got = (jax.jit(f) if kind2 == "jit" else tn.jit(f, backend="jax"))(a)
  else:
    import tensorflow as tf
    f = lambda x: run("tensorflow", x)
    kind2 = "tf.function"
    g = tf.function(f, input_signature=[tf.TensorSpec(
        [None] * r if unknown else s, dtype)])
    got = g(tf.constant(a))
  for x, y in zip(got, want):
    ctx.close(np.asarray(to_np(x)), np.asarray(y).astype(np.asarray(
        to_np(x)).dtype), "%s of %s" % (kind2, kind), tol=1e-7)
  ctx.obs("splits_" + be)


def case_static(ctx):
  """The library's jit with static options."""
  be = ctx.choice(["jax", "jax", "numpy", "tensorflow"])
  n = ctx.integers(2, 4)
  a, b = ctx.array((n, n), np.float64), ctx.array((n, n), np.float64)
  order = ctx.perm(4)
  names = ["x", "y", "opt", "be"]
  pos = {k: order.index(i) for i, k in enumerate(names)}
  stat = [pos["opt"]]
  mode = ctx.choice(["argnum", "default", "named"])
  seen = []

  def body(x, y, opt, bk):
    seen.append(opt)
    X, Y = tn.Node(x, backend=bk), tn.Node(y, backend=bk)
    X[1] ^ Y[0]
    if opt == "trace":
      X[0] ^ Y[1]
      return contractors.greedy([X, Y]).tensor
    if opt == "swap":
      return contractors.greedy([X, Y], [Y[1], X[0]]).tensor
    return contractors.greedy([X, Y], [X[0], Y[1]]).tensor

  want = {"trace": np.trace(a @ b), "swap": (a @ b).T, "plain": a @ b}
  if mode == "argnum":

    def f(*args):
      return body(args[pos["x"]], args[pos["y"]], args[pos["opt"]],
                  args[pos["be"]])

    sa = stat[0] if ctx.flip(0.4) else ctx.choice([tuple, list])(stat)
    j = tn.jit(f, backend_argnum=pos["be"], static_argnums=sa)
    call = lambda x, y, o: j(*[dict(x=x, y=y, opt=o, be=be)[names[
        order[i]]] for i in range(4)])
  else:
    order3 = [i for i in order if i < 3]
    p3 = {names[i]: order3.index(i) for i in range(3)}

    def f(*args):
      return body(args[p3["x"]], args[p3["y"]], args[p3["opt"]], be)

    kw = dict(static_argnums=(p3["opt"],))
    if mode == "named":
      j = tn.jit(f, backend=be, **kw)
    else:
      with tn.DefaultBackend(be):
        j = tn.jit(f, **kw)
    call = lambda x, y, o: j(*[dict(x=x, y=y, opt=o)[names[i]]
                               for i in order3])
  ctx.note("static", be, mode, order)
  ctx.sig("static", be, mode, tuple(order))
  B = tn.backends.backend_factory.get_backend(be)
  for o in ctx.shuffled(["trace", "swap", "plain", "trace", "plain"]):
    compare(ctx, call(B.convert_to_tensor(a), B.convert_to_tensor(b), o),
            want[o], "jit with the static option %s" % o)
  ctx.obs("static_options")


# --------------------------------------------------------- MPS and operators


def case_mps(ctx):
  be = ctx.choice(["jax", "jax", "tensorflow"])
  dtype = pick_dtype(ctx)
  n = ctx.integers(2, 4)
  d = ctx.integers(2, 3)
  D = [1] + [ctx.integers(1, 3) for _ in range(n - 1)] + [1]
  ts = [ctx.array((D[i], d, D[i + 1]), dtype) for i in range(n)]
  O1, O2 = ctx.array((d, d), dtype), ctx.array((d, d), dtype)
  G = ctx.array((d, d, d, d), dtype)
  site = ctx.integers(0, n - 1)
  s2 = ctx.integers(0, n - 2)
  kind = ctx.choice(["gate1", "gate2", "envs", "position", "quantum"])
  sites = ctx.subset(range(n), ctx.integers(1, n))

  def run(b, ts, O1, O2, G):
    if kind == "quantum":
      op = Q.QuOperator.from_tensor(G, [0, 1], [2, 3], backend=b)
      A = tn.ncon([ts[0], ts[1]], [[-1, -2, 1], [1, -3, -4]], backend=b)
      q = Q.QuVector.from_tensor(A, [1, 2, 0, 3], backend=b)
      o2 = op.tensor_product(Q.identity([x for x in (ts[0].shape[0],
                                                     ts[1].shape[2])],
                                        backend=b, dtype=np.dtype(dtype).type))
      return [(q.adjoint() @ o2 @ q).eval()]
    m = tn.FiniteMPS(list(ts), canonicalize=kind == "position", backend=b)
    if kind == "envs":
      l, r = m.left_envs(sites), m.right_envs(sites)
      return [l[k] for k in sorted(l)] + [r[k] for k in sorted(r)]
    if kind == "gate1":
      m.apply_one_site_gate(O1, site)
    elif kind == "gate2":
      m.apply_two_site_gate(G, s2, s2 + 1)
    else:
      m.position(site)
    t = m.tensors[0]
    for x in m.tensors[1:]:
      t = tn.ncon([t, x], [list(range(-1, -len(t.shape), -1)) + [1],
                           [1, -len(t.shape), -len(t.shape) - 1]], backend=b)
    return [t]

  ctx.note("mps", be, kind, n, D)
  ctx.sig("mps", be, kind, n, tuple(D), d, site, tuple(sites))
  want = [np.asarray(x) for x in run("numpy", ts, O1, O2, G)]
  if be == "jax":
    import jax
    f = jax.jit(lambda *a: run("jax", a[:-3], *a[-3:]))
    got = f(*ts, O1, O2, G)
  else:
    import tensorflow as tf
    f = tf.function(lambda *a: run("tensorflow", a[:-3], *a[-3:]))
    got = f(*[tf.constant(x) for x in (*ts, O1, O2, G)])
  ctx.eq(len(got), len(want), "traced %s: number of results" % kind)
  for x, y in zip(got, want):
    s = max(1.0, float(np.abs(y).max()) if y.size else 1.0)
    ctx.close(to_np(x), y, "traced %s on %s" % (kind, be), tol=1e-8 * s)
  ctx.obs("mps_" + kind)


def setup():
  nets.setup_jax()
  warnings.simplefilter("ignore")
  import tensorflow as tf
  tf.get_logger().setLevel("ERROR")


CHECK = core.Check(
    "C27",
    [
        core.Group("jax", case_jax, 200, 4000),
        core.Group("vmap", case_vmap, 90, 2000),
        core.Group("tf", case_tf, 200, 4000),
        core.Group("tf_map", case_tf_map, 70, 1500),
        core.Group("grad_jax", case_grad_jax, 180, 4000),
        core.Group("grad_tf", case_grad_tf, 200, 4000),
        core.Group("split", case_split, 180, 4000),
        core.Group("static", case_static, 80, 1000),
        core.Group("mps", case_mps, 100, 2000),
    ],
    rule="traced and differentiated results compared with numpy's einsum of "
         "the labelled network (and of the network without the tensor); "
         "distinct by network, evaluation route and transformation",
    required=("traced_ncon", "traced_contractor", "traced_pairwise",
              "traced_edges", "traced_flatten", "traced_split",
              "traced_operators", "retraced_shapes", "vmapped", "tf_none",
              "tf_batch", "tf_labels", "tf_axes", "tf_all",
              "graph_other_sizes", "tf_maps", "gradients_jax", "gradients_tf",
              "shared_parameters", "splits_jax", "splits_tensorflow",
              "static_options", "mps_envs", "mps_gate2"),
    setup=setup,
)
