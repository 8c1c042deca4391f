"""C31: structured tensors and networks are evaluated without being expanded.

Every case is built so that the expanded object would need 60-500 MB while the
structured one needs well under a few MB; the monitor is the peak of all
memory allocated during the call (tracemalloc, which sees every numpy buffer),
next to an independent sparse (coordinate list) or chain-product model of the
values."""
import gc
import tracemalloc

import numpy as np
import scipy.sparse as sps
import tensornetwork as tn
import tensornetwork.block_sparse as bs
from tensornetwork import contractors
from tensornetwork.block_sparse import BlockSparseTensor, Index
from tensornetwork.quantum import quantum as qu

from tnv import core, nets, sym
from tnv.dense import to_np

MB = 1 << 20


def bounded(ctx, fn, limit, what):
  """Runs fn; the memory allocated on the way never exceeds limit bytes."""
  gc.collect()
  tracemalloc.start()
  try:
    res = fn()
    peak = tracemalloc.get_traced_memory()[1]
  finally:
    tracemalloc.stop()
  ctx.check(peak <= limit, "%s: allocated %.1f MB, the structured evaluation "
            "needs less than %.1f MB", what, peak / MB, limit / MB)
  ctx.stats.obs("peaks")
  ctx.stats.obs("peak_kb", peak // 1024)
  ctx.stats.obs("allowed_kb", int(limit) // 1024)
  return res


# ----------------------------------------------------------- block sparse
def keys(q):
  out = np.zeros(len(q), dtype=np.int64)
  for k in range(q.shape[1]):
    out = out * 4096 + (q[:, k] + 2048)
  return out


def entries(g, legs):
  """Row-major flat positions of all charge conserving entries."""
  h = len(legs) // 2
  left = keys(sym.reduce_mod(g, -sym.total(g, legs[:h])))
  right = keys(sym.total(g, legs[h:]))
  order = np.argsort(right, kind="stable")
  rs = right[order]
  lo = np.searchsorted(rs, left, "left")
  hi = np.searchsorted(rs, left, "right")
  out = [i * len(right) + np.sort(order[a:b])
         for i, (a, b) in enumerate(zip(lo, hi)) if b > a]
  return (np.concatenate(out) if out else np.zeros(0)).astype(np.int64)


class Coo:
  """Coordinate model: legs, sorted flat positions, values."""

  def __init__(self, g, legs, pos, val):
    o = np.argsort(pos, kind="stable")
    self.g, self.legs, self.pos, self.val = g, list(legs), pos[o], val[o]

  @property
  def dims(self):
    return [len(q) for q, _ in self.legs]

  def multi(self):
    return np.unravel_index(self.pos, self.dims)

  def transpose(self, p):
    ix = self.multi()
    d = self.dims
    pos = np.ravel_multi_index([ix[i] for i in p], [d[i] for i in p])
    return Coo(self.g, [self.legs[i] for i in p], pos, self.val)

  def conj(self):
    return Coo(self.g, [(q, not f) for q, f in self.legs], self.pos,
               np.conj(self.val))

  def split(self, rows, cols):
    ix, d = self.multi(), self.dims
    flat = lambda a: (np.ravel_multi_index([ix[i] for i in a],
                                           [d[i] for i in a]) if a else
                      np.zeros(len(self.pos), np.int64))
    return flat(rows), flat(cols)


def contract(a, b, ax, bx):
  """Sum over matched entries, by scipy's sparse matrices."""
  ka = [i for i in range(len(a.legs)) if i not in ax]
  kb = [i for i in range(len(b.legs)) if i not in bx]
  ra, ca = a.split(ka, list(ax))
  rb, cb = b.split(kb, list(bx))
  ur, ir = np.unique(ra, return_inverse=True)
  uk, ik = np.unique(np.concatenate([ca, cb]), return_inverse=True)
  uc, ic = np.unique(rb, return_inverse=True)
  ik1, ik2 = np.ravel(ik)[:len(ca)], np.ravel(ik)[len(ca):]
  m = (sps.csr_matrix((a.val, (np.ravel(ir), ik1)), (len(ur), len(uk)))
       @ sps.csr_matrix((b.val, (ik2, np.ravel(ic))), (len(uk), len(uc)))).tocoo()
  legs = [a.legs[i] for i in ka] + [b.legs[i] for i in kb]
  n = int(np.prod([b.dims[i] for i in kb], dtype=np.int64))
  pos = ur[m.row].astype(np.int64) * n + uc[m.col].astype(np.int64)
  return Coo(a.g, legs, pos, m.data)


def verify(ctx, t, m, what):
  """t stores exactly the conserving entries and holds m's values there."""
  ctx.eq(tuple(int(x) for x in t.sparse_shape and t.shape),
         tuple(int(np.prod([m.dims[i] for i in gr], dtype=np.int64))
               for gr in groups(t)), what + ": shape")
  c = t.contiguous()
  want = entries(m.g, m.legs)
  ctx.eq(np.asarray(c.data).shape, (len(want),), what + ": stored entries")
  full = np.zeros(len(want), m.val.dtype)
  at = np.searchsorted(want, m.pos)
  ok = (at < len(want)) & (want[np.minimum(at, len(want) - 1)] == m.pos)
  ctx.check(not np.any(m.val[~ok]) , "%s: model has non-conserving entries",
            what)
  full[at[ok]] = m.val[ok]
  got = np.asarray(c.data)
  ctx.check(list(c.flat_order) == list(range(len(m.legs))),
            "%s: contiguous() left the storage permuted: %s", what,
            list(c.flat_order))
  ctx.close(got, full, what)
  fl = [bool(f) for fs in t.flows for f in fs]
  ctx.eq(fl, [bool(f) for _, f in m.legs], what + ": flows")
  for ch, (q, _) in zip([c for cs in t.charges for c in cs], m.legs):
    ctx.check(np.array_equal(np.asarray(ch.charges), q), "%s: charges", what)
  ctx.obs("large_tensors")
  ctx.stats.obs("stored_entries", len(want))


def groups(t):
  out, s = [], 0
  for cs in t.charges:
    out.append(list(range(s, s + len(cs))))
    s += len(cs)
  return out


LAYOUTS = [(4, 56), (4, 64), (4, 72), (5, 24), (5, 28), (6, 14), (6, 16)]


def gen_legs(ctx):
  """Legs whose dense tensor has 8-30 million entries, few conserving."""
  g = ctx.choice([[None] * 3, [None, None, None], [None, None, 5],
                  [None, None, None, "Z2"], [None, 5, None]])
  rank, d = ctx.choice(LAYOUTS)
  legs = []
  for _ in range(rank):
    cols = [ctx.rng.integers(-1, 2, size=d) + (ctx.choice([0, 0, 1]) if
                                              m is None else 0)
            if m is None else ctx.rng.integers(0, m, size=d)
            for m in sym.mods(g)]
    legs.append((np.array(cols).T.astype(np.int64), ctx.flip()))
  return g, legs


def gen(ctx, dtype=None):
  for _ in range(20):
    g, legs = gen_legs(ctx)
    pos = entries(g, legs)
    n = int(np.prod([len(q) for q, _ in legs], dtype=np.int64))
    if 300 < len(pos) < n // 80:
      break
  else:
    raise core.Inconclusive("no sparse enough tensor")
  return build(ctx, g, legs, pos, dtype)


def build(ctx, g, legs, pos, dtype=None):
  dtype = dtype or ctx.choice([np.float64, np.complex128])
  ctx.sig([str(x) for x in g], [len(q) for q, _ in legs],
          np.dtype(dtype).char)
  ctx.note(g, [len(q) for q, _ in legs], dtype)
  val = ctx.array((len(pos),), dtype)
  idx = [Index(sym.make_charge(ctx, g, q), f) for q, f in legs]
  dense = int(np.prod([len(q) for q, _ in legs], dtype=np.int64)) * 8
  how = ctx.choice(["random", "zeros", "randn"])
  if how == "random":
    t = bounded(ctx, lambda: BlockSparseTensor.random(idx, dtype=dtype),
                max(dense // 4, 4 * MB), "BlockSparseTensor.random")
  else:
    f = getattr(bs, how)
    t = bounded(ctx, lambda: f(idx, dtype=dtype), max(dense // 4, 4 * MB), "bs." + how)
  ctx.eq(np.asarray(t.data).shape, (len(pos),), how + ": stored entries")
  t.data = val.copy()
  return t, Coo(g, legs, pos, val), dense // 6


def permuted(ctx, t, m, lim):
  if ctx.flip(0.7):
    p = ctx.perm(len(m.legs))
    sh = ctx.flip(0.4)
    t = bounded(ctx, lambda: t.transpose(p, shuffle=sh), lim,
                "transpose(shuffle=%s)" % sh)
    m = m.transpose(p)
  return t, m


def fused(ctx, t, m, lim):
  """Some neighbouring legs fused (rank of the model stays)."""
  if ctx.flip(0.4):
    part = sym.rand_part(ctx, len(m.legs))
    out, s = [], 0
    for k in part:
      out.append(int(np.prod(m.dims[s:s + k], dtype=np.int64)))
      s += k
    t = bounded(ctx, lambda: t.reshape(out), lim, "reshape")
    ctx.eq([len(c) for c in t.charges], part, "reshape: grouping")
  return t, m


def case_elementwise(ctx):
  t, m, lim = gen(ctx)
  t, m = permuted(ctx, t, m, lim)
  t, m = fused(ctx, t, m, lim)
  verify(ctx, t, m, "layout")
  kind = ctx.choice(["add", "sub", "mul", "div", "conj", "abs", "neg", "copy",
                     "contiguous", "norm", "flatten"])
  c = ctx.choice([2.0, -0.5, 3])
  new = lambda v: Coo(m.g, m.legs, m.pos, v)
  if kind in ("add", "sub"):
    p = ctx.perm(t.ndim)
    o = t.transpose(p, shuffle=ctx.flip()).transpose(list(np.argsort(p)))
    f = (lambda: t + o * c) if kind == "add" else (lambda: t - o * c)
    r = bounded(ctx, f, lim, kind)
    verify(ctx, r, new(m.val * (1 + c) if kind == "add" else m.val * (1 - c)),
           kind)
  elif kind == "norm":
    r = bounded(ctx, lambda: bs.norm(t), lim, kind)
    ctx.close(r, np.linalg.norm(m.val), "norm")
    ctx.obs("norms")
  elif kind == "conj":
    r = bounded(ctx, t.conj if ctx.flip() else lambda: bs.conj(t), lim, kind)
    verify(ctx, r, m.conj(), kind)
  elif kind == "flatten":
    r = bounded(ctx, lambda: t.reshape((int(np.prod(m.dims)),)), lim, kind)
    ctx.eq(tuple(r.shape), (int(np.prod(m.dims)),), "flatten: shape")
    verify(ctx, r, m, kind)
  else:
    f, v = {"mul": (lambda: t * c, m.val * c),
            "div": (lambda: t / c, m.val / c),
            "abs": (lambda: bs.abs(t), np.abs(m.val)),
            "neg": (lambda: t * -1, -m.val),
            "copy": (t.copy, m.val),
            "contiguous": (t.contiguous, m.val)}[kind]
    r = bounded(ctx, f, lim, kind)
    verify(ctx, r, new(v), kind)
  ctx.sig(kind)


def partner(ctx, t, m, lim, share):
  """A tensor dual to m on the legs `share`, with its own other legs."""
  legs = []
  for i in share:
    q, f = m.legs[i]
    legs.append((q, not f))
  extra = []
  for _ in range(ctx.integers(0, 2) if len(share) > 1 else 2):
    cols = [ctx.rng.integers(-1, 2, size=12) if x is None else
            ctx.rng.integers(0, x, size=12) for x in sym.mods(m.g)]
    extra.append((np.array(cols).T.astype(np.int64), ctx.flip()))
  legs = legs + extra
  pos = entries(m.g, legs)
  o, om, _ = build(ctx, m.g, legs, pos, m.val.dtype.type)
  p = ctx.perm(len(legs))
  o = o.transpose(p, shuffle=ctx.flip(0.3))
  om = om.transpose(p)
  inv = list(np.argsort(p))
  return o, om, [inv[k] for k in range(len(share))]


def case_tensordot(ctx):
  t, m, lim = gen(ctx)
  t, m = permuted(ctx, t, m, lim)
  r = len(m.legs)
  how = ctx.choice(["conj", "conj", "partner"])
  if how == "conj":
    o, om = t.conj(), m.conj()
    lo = (r + 1) // 2 if r < 5 else r - 2
    k = ctx.integers(lo, r)
    ax = ctx.subset(range(r), k)
    bx = list(ax)
    if ctx.flip(0.5):
      o, om2 = permuted(ctx, o, om, lim)
      # where the legs went
      p = [next(i for i in range(r) if om.legs[i][0] is q) for q, _ in om2.legs]
      inv = list(np.argsort(p))
      bx, om = [inv[i] for i in ax], om2
  else:
    k = ctx.integers(1, min(3, r - 1))
    ax = ctx.subset(range(r), k)
    o, om, bx = partner(ctx, t, m, lim, ax)
  model = contract(m, om, ax, bx)
  size = int(np.prod(model.dims, dtype=np.int64)) * 8
  if size > 64 * MB and len(entries(m.g, model.legs)) * 20 > size // 8:
    raise core.Inconclusive("result not sparse")
  call = ctx.choice(["bs", "between", "at", "ncon"])
  lim2 = max(lim, 16 * len(entries(m.g, model.legs)) * 16)
  if call == "bs":
    res = bounded(ctx, lambda: bs.tensordot(t, o, (ax, bx)), lim2, "tensordot")
  elif call == "ncon":
    la, lb = [0] * r, [0] * len(om.legs)
    for n, (i, j) in enumerate(zip(ax, bx)):
      la[i] = lb[j] = n + 1
    n = 0
    for lab in (la, lb):
      for i in range(len(lab)):
        if not lab[i]:
          n += 1
          lab[i] = -n
    res = bounded(ctx, lambda: tn.ncon([t, o], [la, lb], backend="symmetric"),
                  lim2, "ncon")
  else:
    a, b = tn.Node(t, backend="symmetric"), tn.Node(o, backend="symmetric")
    ea, eb = list(a.edges), list(b.edges)
    for i, j in zip(ax, bx):
      ea[i] ^ eb[j]
    out = ([ea[i] for i in range(r) if i not in ax]
           + [eb[j] for j in range(len(eb)) if j not in bx])
    if call == "at":
      f = lambda: (a @ b).reorder_edges(out)
    else:
      f = lambda: tn.contract_between(a, b, output_edge_order=out)
    res = bounded(ctx, f, lim2, call).tensor
  if model.legs:
    verify(ctx, res, model, call)
  else:
    ctx.close(np.asarray(res.item()), model.val.sum(), call)
  ctx.sig(how, call, len(ax))
  ctx.obs("large_contractions")


def case_matrix(ctx):
  """Factorisations of a large fused matrix stay block-wise."""
  t, m, lim = gen(ctx)
  t, m = permuted(ctx, t, m, lim)
  r = len(m.legs)
  k = r // 2
  left = list(range(k))
  kind = ctx.choice(["svd", "qr", "node_svd", "node_qr", "trace"])
  shape = (int(np.prod(m.dims[:k])), int(np.prod(m.dims[k:])))
  if kind == "trace":
    o, om = t.conj(), m.conj()
    sq = contract(m, om, list(range(k, r)), list(range(k, r)))
    if int(np.prod(sq.dims, dtype=np.int64)) > 40 * 10**6:
      raise core.Inconclusive("too large")
    a = bounded(ctx, lambda: bs.tensordot(t, o, (list(range(k, r)),) * 2),
                lim, "tensordot")
    verify(ctx, a, sq, "square")
    tr = bounded(ctx, lambda: bs.trace(a, (0, k)), lim, "trace")
    # trace one pair of legs of the model
    ix = sq.multi()
    keep = ix[0] == ix[k]
    rest = [i for i in range(2 * k) if i not in (0, k)]
    d = sq.dims
    if rest:
      pos = np.ravel_multi_index([ix[i][keep] for i in rest],
                                 [d[i] for i in rest])
    else:
      pos = np.zeros(int(keep.sum()), np.int64)
    u, inv = np.unique(pos, return_inverse=True)
    v = np.zeros(len(u), sq.val.dtype)
    np.add.at(v, np.ravel(inv), sq.val[keep])
    verify(ctx, tr, Coo(m.g, [sq.legs[i] for i in rest], u, v), "trace")
    ctx.obs("large_traces")
    return
  if kind.startswith("node"):
    n = tn.Node(t, backend="symmetric")
    le, ri = list(n.edges[:k]), list(n.edges[k:])
    if kind == "node_svd":
      l, rr, _ = bounded(ctx, lambda: tn.split_node(n, le, ri), 3 * lim, kind)
    else:
      l, rr = bounded(ctx, lambda: tn.split_node_qr(n, le, ri), 3 * lim, kind)
    res = bounded(ctx, lambda: tn.contract_between(
        l, rr, output_edge_order=le + ri), 3 * lim, kind + " product").tensor
    verify(ctx, res, m, kind)
  else:
    mat = bounded(ctx, lambda: t.reshape(shape), lim, "reshape")
    if kind == "svd":
      u, s, v = bounded(ctx, lambda: bs.svd(mat, full_matrices=False), 3 * lim,
                        kind)
      ctx.close(np.linalg.norm(np.asarray(s.data)), np.linalg.norm(m.val),
                "norm of the spectrum")
      f = lambda: u @ bs.diag(s) @ v
    else:
      q, rr = bounded(ctx, lambda: bs.qr(mat), 3 * lim, kind)
      f = lambda: q @ rr
    res = bounded(ctx, f, 3 * lim, kind + " product")
    verify(ctx, res, m, kind)
  ctx.obs("large_factorisations")
  ctx.sig(kind)


# ------------------------------------------------------------- copy nodes
def case_copynode(ctx):
  """A copy node of high rank among small partners."""
  backend = ctx.choice(["numpy", "numpy", "numpy", "tensorflow", "jax"])
  if backend == "jax":
    nets.setup_jax()
  d, rank = ctx.choice([(2, 22), (2, 23), (2, 24), (3, 15), (4, 12), (5, 10),
                        (8, 8), (2, 25)])
  dense = d**rank * 8
  lim = min(dense // 6, 24 * MB)
  dtype = np.float64
  c = tn.CopyNode(rank, d, backend=backend, dtype=dtype)
  left = ctx.shuffled(range(rank))
  nodes, arrs = [], []      # partners with (array, shared axes)
  nopen, want_open = 0, ctx.integers(0, 4)
  while left:
    k = min(len(left), ctx.choice([1, 1, 1, 2, 2, 3]))
    if backend == "jax" or len(nodes) > 12:
      k = min(len(left), 5)    # jax searches for the best contraction path
    extra = 1 if nopen < want_open and ctx.flip(0.4) else 0
    nopen += extra
    a = ctx.array((d,) * k + (3,) * extra, dtype)
    p = ctx.perm(k + extra)
    arr = np.transpose(a, p)
    inv = [int(x) for x in np.argsort(p)]
    n = tn.Node(arr, backend=backend)
    for j in range(k):
      i = int(left.pop())
      if ctx.flip():
        c[i] ^ n[inv[j]]
      else:
        n[inv[j]] ^ c[i]
    nodes.append(n)
    diag = a[(np.arange(d),) * k]      # (d,) or (d, 3)
    arrs.append((diag, n[inv[k]] if extra else None))
  ctx.note("rank", rank, "dim", d, backend, len(nodes), "partners")
  ctx.sig(rank, d, backend, len(nodes), nopen)
  val, out = np.ones((d,)), []
  for diag, e in arrs:
    val = np.einsum("i...,ia->i...a", val, diag.reshape(d, -1))
    if e is None:
      val = val[..., 0]
    else:
      out.append(e)
  val = val.sum(axis=0)
  # looking at the network does not build the dense tensor
  def look():
    ctx.eq(tuple(c.shape), (d,) * rank, "shape")
    ctx.eq(c.get_rank(), rank, "rank")
    ctx.eq(np.dtype(c.dtype), np.dtype(dtype), "dtype")
    tn.check_connected([c] + nodes)
    tn.check_correct({c, *nodes})
    ctx.eq(tn.reachable(c), {c, *nodes}, "reachable")
    ctx.eq(len(tn.get_all_edges({c, *nodes})), rank + nopen, "edges")
    ctx.eq(tn.get_subgraph_dangling({c, *nodes}), set(out), "dangling")
    ctx.eq(set(tn.get_neighbors(c)), set(nodes), "neighbors")
    ctx.eq(set(c.get_partners()), set(nodes), "partners")
  bounded(ctx, look, lim, "queries on a copy node")
  how = ctx.choice(["contract", "bucket"])
  if how == "contract":
    res = bounded(ctx, lambda: tn.contract_copy_node(c), lim,
                  "contract_copy_node")
  else:
    res, = bounded(ctx, lambda: contractors.bucket([c] + nodes, [c]), lim,
                   "bucket")
  if out:
    res.reorder_edges(out)
  ctx.close(to_np(res.tensor), val, how)
  ctx.obs("large_copy_nodes")
  ctx.obs("copy_" + backend)


def case_hypergraph(ctx):
  """A sum over many shared indices (graphical model): bucket elimination
  keeps every tensor as small as the elimination order allows."""
  d = ctx.integers(2, 3)
  n = ctx.integers(14, 24)
  # a chain model: psi_k(x_k, x_{k+1}) and unary terms; every variable is a
  # copy node of rank 2 + number of unary terms
  factors = [ctx.array((d, d)) for _ in range(n - 1)]
  unary = [[ctx.array((d,)) for _ in range(ctx.integers(0, 2))]
           for _ in range(n)]
  nodes = [tn.Node(f) for f in factors]
  copies = []
  for k in range(n):
    us = [tn.Node(u) for u in unary[k]]
    ends = [u[0] for u in us]
    if k > 0:
      ends.append(nodes[k - 1][1])
    if k < n - 1:
      ends.append(nodes[k][0])
    c = tn.CopyNode(len(ends), d)
    for i, j in enumerate(map(int, ctx.perm(len(ends)))):
      c[i] ^ ends[j]
    copies.append(c)
    nodes += us
  order = list(copies)
  if ctx.flip():
    order = order[::-1]
  msg = np.ones((d,))
  for k in range(n):
    w = np.prod([np.ones((d,))] + unary[k], axis=0)
    msg = msg * w
    msg = msg @ factors[k] if k < n - 1 else msg.sum()
  res = bounded(ctx, lambda: contractors.bucket(nodes[:n - 1] + nodes[n - 1:]
                                                + copies, order), 8 * MB,
                "bucket elimination")
  ctx.eq(len(list(res)), 1, "nodes left")
  ctx.close(to_np(list(res)[0].tensor), msg, "partition function")
  ctx.obs("eliminations")
  ctx.sig(d, n, sum(map(len, unary)))


# ------------------------------------------------------------ long networks
def ladder(ctx, n):
  """<phi|psi> of two long matrix product states: expanding either state
  would need d^n entries."""
  d, dim = ctx.choice([(2, 4), (2, 5), (3, 3)])
  mats = [[ctx.array((1 if k == 0 else dim, d, 1 if k == n - 1 else dim))
           / dim for k in range(n)] for _ in range(2)]
  env = np.ones((1, 1))
  for a, b in zip(*mats):
    env = np.einsum("ij,iak,jal->kl", env, a, b)
  return d, mats, env[0, 0]


def case_contractor(ctx):
  kind = ctx.choice(["greedy", "auto", "path", "branch", "ncon", "ncon_order",
                     "between"])
  n = ctx.integers(23, 26) if kind != "branch" else ctx.integers(21, 23)
  d, mats, want = ladder(ctx, n)
  dense = d**n * 8
  lim = min(dense // 4, 24 * MB)
  flat = [m for row in mats for m in row]
  labels = [[0] * 3 for _ in flat]
  # physical n.., virtual 1.., in ladder order for con_order
  nxt = [1]
  def new():
    nxt[0] += 1
    return nxt[0] - 1
  ends = [new() for _ in range(2)]
  phys = [0] * n
  virt = [[ends[0]] + [0] * (n - 1) + [ends[1]] for _ in range(2)]
  for k in range(n):
    phys[k] = new()
    if k < n - 1:
      for r in range(2):
        virt[r][k + 1] = new()
  for r in range(2):
    for k in range(n):
      labels[r * n + k] = [virt[r][k], phys[k], virt[r][k + 1]]
  order = [ends[0]]
  for k in range(n):
    order.append(phys[k])
    if k < n - 1:
      order += [virt[0][k + 1], virt[1][k + 1]]
  order.append(ends[1])
  ctx.sig(kind, n, d)
  ctx.note(kind, n, d)
  if kind in ("ncon", "ncon_order"):
    if kind == "ncon":
      ren = {old: i + 1 for i, old in enumerate(order)}
      labs = [[ren[x] for x in l] for l in labels]
      f = lambda: tn.ncon(flat, labs)
    else:
      ren = dict(zip(order, ctx.shuffled(range(1, len(order) + 1))))
      labs = [[ren[x] for x in l] for l in labels]
      f = lambda: tn.ncon(flat, labs, con_order=[ren[x] for x in order])
    res = bounded(ctx, f, lim, kind)
  else:
    nodes = [tn.Node(m) for m in flat]
    seen = {}
    for node, lab in zip(nodes, labels):
      for i, x in enumerate(lab):
        if x in seen:
          seen[x] ^ node[i]
        else:
          seen[x] = node[i]
    if kind == "between":
      def f():
        acc = tn.contract_between(nodes[0], nodes[n])
        for k in range(1, n):
          acc = tn.contract_between(acc, nodes[k])
          acc = tn.contract_between(acc, nodes[n + k])
        return acc
    elif kind == "path":
      def f():
        return contractors.contract_path(
            contractors.path_solver("greedy", nodes), nodes, [])
    elif kind == "branch":
      f = lambda: contractors.branch(nodes, nbranch=1)
    else:
      f = lambda: getattr(contractors, kind)(nodes)
    if kind in ("greedy", "path", "auto", "branch"):
      # what the schedule found by the solver needs, from the shapes alone
      path = contractors.path_solver(
          "greedy" if kind != "branch" else "branch", list(nodes),
          **({"nbranch": 1} if kind == "branch" else {}))
      big = widest([dict(zip(l, m.shape)) for l, m in zip(labels, flat)], path)
      ctx.stats.obs("schedules")
      lim = max(4 * MB, 40 * 8 * big + 6 * MB)
      if lim > dense // 4:
        raise core.Inconclusive("the solver's schedule is as large")
    res = to_np(bounded(ctx, f, lim, kind).tensor)
  ctx.close(res, want, kind)
  ctx.obs("long_networks")


def widest(shapes, path):
  """Entries of the largest tensor a schedule makes."""
  ts = [dict(s) for s in shapes]
  big = 1
  for step in path:
    parts = [ts[i] for i in step]
    ts = [t for i, t in enumerate(ts) if i not in step]
    out = {}
    for p in parts:
      for k, v in p.items():
        if k in out:
          del out[k]
        else:
          out[k] = v
    ts.append(out)
    big = max(big, int(np.prod(list(out.values()), dtype=np.int64)))
  return big


def case_operator(ctx):
  """Operators and states on many subsystems stay networks."""
  n = ctx.integers(21, 26)
  lim = 12 * MB
  dt = ctx.choice([np.float64, np.complex128])
  vs = [ctx.array((2,), dt) for _ in range(n)]
  ms = [ctx.array((2, 2), dt) for _ in range(n)]
  def vec(arrs):
    v = qu.QuVector.from_tensor(arrs[0])
    for a in arrs[1:]:
      v = v.tensor_product(qu.QuVector.from_tensor(a))
    return v
  def op(arrs):
    o = qu.QuOperator.from_tensor(arrs[0], [0], [1])
    for a in arrs[1:]:
      o = o.tensor_product(qu.QuOperator.from_tensor(a, [0], [1]))
    return o
  kind = ctx.choice(["expect", "norm", "trace", "reduced", "identity",
                     "apply"])
  ctx.sig(kind, n, np.dtype(dt).char)
  ctx.note(kind, n, dt)
  seq = lambda q: contractors.greedy(
      list(q.nodes), output_edge_order=list(q.out_edges) + list(q.in_edges))
  if kind == "expect":
    res = bounded(ctx, lambda: seq(vec(vs).adjoint() @ op(ms) @ vec(vs)), lim,
                  kind)
    want = np.prod([np.vdot(v, m @ v) for v, m in zip(vs, ms)])
  elif kind == "norm":
    res = bounded(ctx, lambda: seq(vec(vs).norm()), lim, kind)
    want = np.prod([np.vdot(v, v) for v in vs])
  elif kind == "trace":
    res = bounded(ctx, lambda: seq((op(ms) @ op(ms).adjoint()).trace()), lim,
                  kind)
    want = np.prod([np.trace(m @ m.conj().T) for m in ms])
  elif kind == "identity":
    ident = lambda: qu.identity([2] * n, dtype=dt)
    def f():
      i = ident()
      i.check_network()
      return seq(vec(vs).adjoint() @ (i @ op(ms)) @ vec(vs))
    res = bounded(ctx, f, lim, kind)
    want = np.prod([np.vdot(v, m @ v) for v, m in zip(vs, ms)])
  elif kind == "reduced":
    keep = sorted(ctx.subset(range(n), 2))
    out = [i for i in range(n) if i not in keep]
    res = bounded(ctx, lambda: seq(vec(vs).reduced_density(out)), lim, kind)
    a, b = (np.outer(vs[k], vs[k].conj()) for k in keep)
    want = np.einsum("ij,kl->ikjl", a, b) * np.prod(
        [np.vdot(vs[k], vs[k]) for k in out])
  else:
    few = ctx.integers(1, 3)
    at = sorted(ctx.subset(range(n), few))
    def f():
      parts = [qu.QuOperator.from_tensor(ms[k], [0], [1]) if k in at else
               qu.identity([2], dtype=dt) for k in range(n)]
      o = parts[0]
      for p in parts[1:]:
        o = o.tensor_product(p)
      return seq(vec(vs).adjoint() @ o @ vec(vs))
    res = bounded(ctx, f, lim, kind)
    want = np.prod([np.vdot(v, m @ v) if k in at else np.vdot(v, v)
                    for k, (v, m) in enumerate(zip(vs, ms))])
  scale = max(1.0, float(np.max(np.abs(want))))
  ctx.close(to_np(res.tensor) / scale, want / scale, kind)
  ctx.obs("many_body_operators")


def case_mps(ctx):
  """Chains of 20-40 sites: cost stays polynomial in the bond dimension."""
  n = ctx.integers(22, 40)
  d, dim = 2, ctx.integers(2, 5)
  lim = 24 * MB
  dt = ctx.choice([np.float64, np.complex128])
  ts = [ctx.array((1 if k == 0 else dim, d, 1 if k == n - 1 else dim), dt)
        / np.sqrt(d * dim) for k in range(n)]
  kind = ctx.choice(["measure", "corr", "norm", "gate", "overlap"])
  ctx.sig(kind, n, dim, np.dtype(dt).char)
  ctx.note(kind, n, dim, dt)
  mk = lambda: tn.FiniteMPS([t.copy() for t in ts], center_position=ctx_c,
                            canonicalize=True)
  ctx_c = ctx.integers(0, n - 1)
  mps = bounded(ctx, mk, lim, "FiniteMPS")
  arr = [to_np(t) for t in mps.tensors]
  def expect(ops):
    env = np.ones((1, 1), np.complex128)
    for k, a in enumerate(arr):
      o = ops.get(k)
      b = a if o is None else np.einsum("ps,asb->apb", o, a)
      env = np.einsum("ij,iak,jal->kl", env, a.conj(), b)
    return env[0, 0]
  nn = expect({})
  ctx.close(nn, 1.0, "normalised")
  herm = lambda: (lambda x: x + x.conj().T)(ctx.array((2, 2), dt))
  if kind == "measure":
    sites = sorted(ctx.subset(range(n), 4))
    ops = [herm() for _ in sites]
    got = bounded(ctx, lambda: mps.measure_local_operator(ops, sites), lim,
                  kind)
    ctx.close([to_np(x) for x in got],
              [expect({s: o}) for s, o in zip(sites, ops)], kind)
  elif kind == "corr":
    i = ctx.integers(0, n - 1)
    js = sorted(ctx.subset(range(n), 4))
    a, b = herm(), herm()
    got = bounded(ctx, lambda: mps.measure_two_body_correlator(a, b, i, js),
                  lim, kind)
    ctx.close([to_np(x) for x in got],
              [expect({i: a @ b} if i == j else {i: a, j: b}) for j in js],
              kind)
  elif kind == "norm":
    pos = ctx.integers(0, n - 1)
    def f():
      mps.position(pos, normalize=False)
      return mps.check_canonical()
    ctx.close(to_np(bounded(ctx, f, lim, kind)), 0.0, kind, tol=1e-8)
    arr[:] = [to_np(t) for t in mps.tensors]
    ctx.close(expect({}), 1.0, kind)
  elif kind == "gate":
    s = ctx.integers(0, n - 2)
    mps.position(s)
    gate = ctx.array((2, 2, 2, 2), dt)
    arr[:] = [to_np(t) for t in mps.tensors]
    gg = np.einsum("abij,abkl->ijkl", gate.conj(), gate).reshape(4, 4)
    th = np.einsum("iaj,jbk->abik", arr[s], arr[s + 1]).reshape(4, -1)
    want = np.trace(th.conj().T @ gg @ th)
    bounded(ctx, lambda: mps.apply_two_site_gate(gate, s, s + 1,
                                                 center_position=s), lim, kind)
    arr[:] = [to_np(t) for t in mps.tensors]
    ctx.close(expect({}), want, kind)
  else:
    other = tn.FiniteMPS([t.copy() for t in ts], center_position=0,
                         canonicalize=True)
    b = [to_np(t) for t in other.tensors]
    env = np.ones((1, 1), np.complex128)
    for x, y in zip(arr, b):
      env = np.einsum("ij,iak,jal->kl", env, x.conj(), y)
    ctx.close(abs(env[0, 0]), 1.0, "same state up to a phase")
  ctx.obs("long_chains")


CHECK = core.Check(
    "C31",
    [
        core.Group("elementwise", case_elementwise, 60, 1000, cpu=120),
        core.Group("tensordot", case_tensordot, 80, 1600, cpu=120),
        core.Group("matrix", case_matrix, 60, 1000, cpu=120),
        core.Group("copynode", case_copynode, 160, 3000, cpu=120),
        core.Group("hypergraph", case_hypergraph, 120, 2000, cpu=120),
        core.Group("contractor", case_contractor, 120, 2000, cpu=120),
        core.Group("operator", case_operator, 100, 1600, cpu=120),
        core.Group("mps", case_mps, 80, 1600, cpu=120),
    ],
    rule="cases in which the peak memory of every call was measured next to "
         "the values; distinct by structure, sizes and operation",
    required=("peaks", "large_tensors", "large_contractions",
              "large_factorisations", "large_traces", "large_copy_nodes",
              "eliminations", "long_networks", "schedules",
              "many_body_operators", "long_chains"),
)
