"""C24: computations never modify the caller's arrays or lists.

Every entry draws its inputs, then the same body runs three times: twice on
hostile versions of the inputs (read-only, strided, reversed, Fortran-ordered
or shared arrays, snapshots of which are compared afterwards) and once on
plain private copies.  All three have to agree.
"""
import io
import json
import warnings

import numpy as np
import tensornetwork as tn
from tensornetwork import contractors
from tensornetwork.backends import backend_factory
from tensornetwork.block_sparse import index as bsindex
from tensornetwork.contractors.custom_path_solvers import (nconinterface,
                                                           pathsolvers)
from tensornetwork.linalg import krylov, node_linalg
from tensornetwork.quantum import quantum as Q

from tnv import core, mps, nets, sym
from tnv.dense import Frozen, to_np

C = np.complex128
F = np.float64


# ------------------------------------------------------------- hostile inputs


def hostile(ctx, a, bases):
  """The same values in an awkward array."""
  kind = ctx.choice(["plain", "readonly", "fortran", "strided", "reversed",
                     "roview", "window"])
  a = np.array(a)
  if a.ndim == 0 and kind not in ("plain", "readonly"):
    kind = "readonly"
  if kind == "fortran":
    a = np.asfortranarray(a)
  elif kind == "strided":
    base = np.repeat(a, 2, axis=-1)
    bases.append(base)
    a = base[..., ::2]
  elif kind == "reversed":
    base = np.ascontiguousarray(a[::-1])
    bases.append(base)
    a = base[::-1]
  elif kind == "window":
    base = np.pad(a, [(1, 1)] * a.ndim, constant_values=7)
    bases.append(base)
    a = base[tuple(slice(1, -1) for _ in range(a.ndim))]
  elif kind == "roview":
    base = a.copy()
    base.setflags(write=False)
    bases.append(base)
    a = base[...]
  if kind == "readonly":
    a.setflags(write=False)
  ctx.obs("hostile_" + kind)
  return a


def dress(ctx, v, bases, pool):
  if isinstance(v, np.ndarray):
    if v.dtype.kind in "fc" or v.dtype.kind in "biu":
      key = (v.shape, v.dtype, v.tobytes())
      if key in pool and ctx.flip(0.6):
        ctx.obs("aliased_inputs")
        return pool[key]
      out = hostile(ctx, v, bases)
      pool[key] = out
      return out
    return v
  if isinstance(v, list):
    return [dress(ctx, x, bases, pool) for x in v]
  if isinstance(v, tuple):
    return tuple(dress(ctx, x, bases, pool) for x in v)
  return v


def fresh(v):
  if isinstance(v, np.ndarray):
    return np.array(v, order="C")
  if isinstance(v, (list, tuple)):
    return type(v)(fresh(x) for x in v)
  if isinstance(v, (tn.BlockSparseTensor, tn.ChargeArray)):
    return v.copy().contiguous()
  return v


def flat(r, out=None):
  out = [] if out is None else out
  if isinstance(r, (list, tuple)):
    for x in r:
      flat(x, out)
  elif isinstance(r, dict):
    for k in sorted(r):
      flat(r[k], out)
  elif r is not None:
    out.append(np.asarray(to_np(r)) if not isinstance(r, (str, bytes)) else r)
  return out


class Keep:
  """Collects monitors set up inside a body."""

  def __init__(self, ctx):
    self.ctx, self.items = ctx, []

  def __call__(self, **objs):
    self.items.append(Frozen(**objs))

  def ids(self, **lists):
    """Lists of objects that the operation itself may consume."""
    for k, v in lists.items():
      self.items.append((k, v, [id(x) for x in v]))

  def nodes(self, nodes):
    nodes = list(nodes)
    self.items.append((nodes, nets.fingerprint(nodes),
                       [to_np(n.tensor).copy() for n in nodes]))

  def verify(self, what):
    for it in self.items:
      if isinstance(it, Frozen):
        it.verify(self.ctx, what)
      elif isinstance(it[0], str):
        name, v, before = it
        self.ctx.stats.obs("mutation_observations")
        self.ctx.check([id(x) for x in v] == before,
                       "%s changed the list %s", what, name)
      else:
        nodes, fp, ts = it
        self.ctx.check(nets.fingerprint(nodes) == fp,
                       "%s changed the structure of its nodes", what)
        for n, t in zip(nodes, ts):
          self.ctx.check(np.array_equal(to_np(n.tensor), t),
                         "%s changed the tensor of a node", what)
        self.ctx.stats.obs("mutation_observations")


def idx_snap(ix):
  return (tuple(bool(f) for f in ix.flat_flows),
          tuple(np.asarray(c.charges).tobytes() for c in ix.flat_charges),
          ix.dim)


def run(ctx, what, inputs, body, tol=1e-9, repeat=True):
  bases, pool = [], {}
  host = {k: dress(ctx, v, bases, pool) for k, v in inputs.items()}
  frozen = Frozen(**host, **{"base%d" % i: b for i, b in enumerate(bases)})
  runs = []
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    for _ in range(2 if repeat else 1):
      keep = Keep(ctx)
      r = body(keep, **host)
      keep.verify(what)
      runs.append([np.array(x) if isinstance(x, np.ndarray) else x
                   for x in flat(r)])
      frozen.verify(ctx, what)
    keep = Keep(ctx)
    runs.append(flat(body(keep, **{k: fresh(v) for k, v in inputs.items()})))
  for i, label in list(enumerate(["repeated", "on plain copies of its inputs"]
                                 ))[0 if repeat else 1:]:
    a, b = runs[0], runs[i + 1] if repeat else runs[1]
    ctx.eq(len(a), len(b), what + " " + label + ": number of results")
    for x, y in zip(a, b):
      if isinstance(x, (str, bytes)):
        ctx.check(x == y, "%s %s: different text", what, label)
        continue
      ctx.eq(x.dtype, y.dtype, what + " " + label + ": dtype")
      s = max(1.0, float(np.abs(y).max())) if y.size and y.dtype.kind in "fc" \
          else 1.0
      ctx.close(x, y, what + " " + label, tol=tol * s)
  ctx.sig(what, *[getattr(v, "shape", None) for v in inputs.values()])
  ctx.note(what)
  ctx.obs("computations")


# ---------------------------------------------------------------------- nodes


def be_of(ctx):
  return ctx.choice(["numpy"] * 8 + ["tensorflow", "jax"])


def case_nodes(ctx):
  b = be_of(ctx)
  N = lambda a, **k: tn.Node(a, backend=b, **k)
  dt = ctx.choice([F, C])
  n = ctx.integers(1, 3)
  kind = ctx.choice(sorted(NODE_BODIES))
  same = ctx.flip(0.3)
  a = ctx.array((n, 3, 2), dt)
  v = a if same else ctx.array((n, 3, 2), dt)
  w = ctx.array((3, n), dt)
  k = ctx.integers(1, 3)
  ctx.sig(b, str(dt))
  run(ctx, "node " + kind, {"a": a, "v": v, "w": w},
      lambda keep, a, v, w: NODE_BODIES[kind](N, keep, a, v, w, k), tol=1e-8)


def nb_arith(N, keep, a, v, w, k):
  x, y = N(a), N(v)
  keep.nodes([x, y])
  return [z.tensor for z in (x + y, x - y, x * y, x / 2.0, x * 3.0)]


def nb_contract(N, keep, a, v, w, k):
  x, y = N(a), N(v)
  x[0] ^ y[0]
  x[1] ^ y[1]
  order = [y[2], x[2]]
  keep(order=order)
  r = tn.contract_between(x, y, output_edge_order=order)
  return [r.tensor]


def nb_edge(N, keep, a, v, w, k):
  x, y = N(a), N(w)
  e = x[1] ^ y[0]
  r = tn.contract(e)
  z = N(w)
  return [tn.outer_product(r, z).tensor]


def nb_flatten(N, keep, a, v, w, k):
  x, y = N(a), N(v)
  es = [x[i] ^ y[i] for i in range(3)]
  keep(es=es)
  f = tn.flatten_edges(es)
  r0 = [x.tensor, y.tensor]
  parts = tn.split_edge(f, (a.shape[0], 3, 2))
  keep(parts=parts)
  return r0 + [x.tensor, y.tensor, tn.contract_between(x, y).tensor]


def nb_slice(N, keep, a, v, w, k):
  x, y = N(a), N(w)
  e = x[1] ^ y[0]
  tn.slice_edge(e, 1, 2)
  return [x.tensor, y.tensor]


def nb_trace(N, keep, a, v, w, k):
  x = N(a)
  y = N(w)
  x[0] ^ y[1]
  x[1] ^ y[0]
  e = tn.flatten_edges_between(x, y)
  r = tn.contract_between(x, y)
  z = N(np.stack([a[0, :2], a[0, :2]])) if a.shape[1] >= 2 else N(a)
  z[0] ^ z[1]
  return [r.tensor, tn.contract_trace_edges(z).tensor]


def nb_copy(N, keep, a, v, w, k):
  x, y = N(a, name="x"), N(v, name="y")
  x[2] ^ y[2]
  keep.nodes([x, y])
  nodes = [x, y]
  keep(nodes=nodes)
  nd, ed = tn.copy(nodes, conjugate=True)
  rep = tn.replicate_nodes(nodes)
  c = node_linalg.conj(x)
  t = node_linalg.transpose(x, [2, 0, 1])
  s = node_linalg.norm(x)
  k2 = node_linalg.kron([N(w), N(w)])
  return [nd[x].tensor, nd[y].tensor, [n.tensor for n in rep], c.tensor,
          t.tensor, s, k2.tensor]


def nb_density(N, keep, a, v, w, k):
  x, y = N(a), N(v)
  x[0] ^ y[0]
  traced = [x[1], y[1]]
  keep(traced=traced)
  nd, ed = tn.reduced_density(traced)
  nodes = list(nd) + list(nd.values())
  out = [x[2], y[2], ed[x[2]], ed[y[2]]]
  return [contractors.greedy(nodes, out).tensor]


def nb_svd(N, keep, a, v, w, k):
  x = N(a)
  l, r = [x[0], x[2]], [x[1]]
  keep(l=l, r=r)
  u, s, _ = tn.split_node(x, l, r, max_singular_values=k)
  out = (u @ s)
  return [out.tensor]


def nb_fullsvd(N, keep, a, v, w, k):
  x = N(a)
  l, r = [x[1]], [x[2], x[0]]
  keep(l=l, r=r)
  u, s, vh, t = tn.split_node_full_svd(x, l, r, max_singular_values=k)
  return [s.tensor, t, (u @ s @ vh).tensor]


def nb_qr(N, keep, a, v, w, k):
  x, y = N(a), N(a)
  l, r = [x[2]], [x[1], x[0]]
  keep(l=l, r=r)
  q, rr = tn.split_node_qr(x, l, r)
  r2, q2 = tn.split_node_rq(y, [y[0], y[1]], [y[2]])
  return [(q @ rr).tensor, (r2 @ q2).tensor]


def nb_contractor(N, keep, a, v, w, k):
  x, y, z = N(a), N(v), N(w)
  x[1] ^ z[0]
  x[2] ^ y[2]
  x[0] ^ y[0]
  nodes = [x, y, z]
  order = [z[1], y[1]]
  keep.ids(nodes=nodes, order=order)
  f = (contractors.greedy, contractors.auto, contractors.optimal,
       contractors.branch)[k % 4]
  return [f(nodes, order).tensor]


def nb_json(N, keep, a, v, w, k):
  if N(w).backend.name != "numpy":
    return [w]
  x, y = N(a, name="x", axis_names=["a", "b", "c"]), N(w, name="y")
  e = x[1] ^ y[0]
  keep.nodes([x, y])
  bind = {"e": e}
  keep(bind=bind)
  s = tn.nodes_to_json([x, y], edge_binding=bind)
  buf = io.BytesIO()
  tn.save_nodes([x, y], buf)
  nodes, _ = tn.nodes_from_json(s)
  return [[n.name for n in nodes], [n.tensor for n in nodes]]


def nb_query(N, keep, a, v, w, k):
  x, y = N(a, name="x"), N(w, name="y")
  x[1] ^ y[0]
  nodes = [x, y]
  keep.nodes(nodes)
  keep(nodes=nodes)
  tn.check_correct(nodes)
  tn.check_connected(nodes)
  tn.reachable(x)
  tn.get_all_edges(nodes)
  tn.get_subgraph_dangling(nodes)
  tn.get_neighbors(x)
  tn.get_all_nodes([x[0]])
  repr(x), str(y), x.shape, x.dtype, x.sparse_shape
  if x.backend.name == "numpy":
    x.to_serial_dict()
  x.get_all_dangling(), x.has_nondangling_edge(), x.get_rank()
  return [x.tensor, x.tensor]


def nb_reorder(N, keep, a, v, w, k):
  x = N(a)
  order = [x[2], x[0], x[1]]
  keep(order=order)
  x.reorder_edges(order)
  perm = [1, 2, 0]
  keep(perm=perm)
  r0 = x.tensor
  y = N(v, axis_names=["p", "q", "r"])
  y.reorder_axes(perm)
  names = ["A", "B", "C"]
  keep(names=names)
  z = N(v, axis_names=names)
  z.add_axis_names(["x", "y", "z"])
  z.set_tensor(a)
  return [r0, y.tensor, z.tensor]


def nb_copynode(N, keep, a, v, w, k):
  x, y = N(w), N(w)
  c = tn.CopyNode(2, 3, backend=x.backend.name, dtype=np.dtype(w.dtype).type)
  c[0] ^ x[0]
  c[1] ^ y[0]
  r = tn.contract_copy_node(c)
  return [r.tensor]


def nb_topology(N, keep, a, v, w, k):
  ts = [a, v, w]
  keep(ts=ts)
  nodes = tn.from_topology("axb,ayb,xz", ts, backend=N(w).backend.name)
  r = contractors.auto(nodes, [nodes[1][1], nodes[2][1]])
  return [r.tensor]


def nb_bucket(N, keep, a, v, w, k):
  x, y, z = N(w), N(w), N(w)
  c = tn.CopyNode(3, 3, backend=x.backend.name, dtype=np.dtype(w.dtype).type)
  for i, n in enumerate((x, y, z)):
    c[i] ^ n[0]
  nodes, order = [x, y, z, c], [c]
  keep.ids(nodes=nodes, order=order)
  edges = [x[1], y[1], z[1]]
  r = contractors.bucket(nodes, order)
  out = list(r)[0]
  out.reorder_edges(edges)
  return [out.tensor]


def nb_quantum(N, keep, a, v, w, k):
  x = N(w @ np.conj(w).T)
  op = Q.QuOperator([x[0]], [x[1]])
  y = N(w[:, 0])
  vec = Q.QuVector([y[0]])
  spaces = [3]
  keep(spaces=spaces)
  i = Q.identity(spaces, backend=x.backend.name,
                 dtype=np.dtype(w.dtype).type)
  keep.nodes([x, y])
  es = [list(op.out_edges), list(op.in_edges), list(vec.out_edges)]
  keep(es=es)
  rs = [op @ vec, op.tensor_product(op), op.adjoint(), op.trace(),
        op @ i @ vec, vec.projector(), vec.reduced_density([]),
        op * N(a[0, 0, 0]), vec.norm(), vec.adjoint()]
  return [r.eval() for r in rs]


NODE_BODIES = {k[3:]: v for k, v in list(globals().items())
               if k.startswith("nb_")}


# ------------------------------------------------------------------------ ncon


def case_ncon(ctx):
  b = be_of(ctx)
  dt = ctx.choice([F, C])
  d = [ctx.integers(1, 3) for _ in range(5)]
  x = ctx.array((d[0], d[1], d[2]), dt)
  y = x if ctx.flip(0.3) else ctx.array((d[0], d[1], d[2]), dt)
  z = ctx.array((d[2], d[3], d[3]), dt)
  named = ctx.flip(0.3)
  labs = [[1, 2, -1], [1, 2, 3], [3, 4, 4]]
  if ctx.flip(0.3):
    labs[2] = [3, -2, 4]
    labs[0], labs[1] = [1, 2, -1], [1, 2, 3]
    # 4 appears once and is summed
  if ctx.flip(0.3):
    labs[1][0] = labs[0][0] = -5     # batch label
  con = ctx.shuffled(sorted({l for t in labs for l in t if l > 0}))
  out = ctx.shuffled(sorted({l for t in labs for l in t if l < 0}))
  if named:
    nm = lambda l: ("-" if l < 0 else "") + "abcdefgh"[abs(l)]
    labs = [[nm(l) for l in t] for t in labs]
    con, out = [nm(l) for l in con], [nm(l) for l in out]
  con = None if ctx.flip() else con
  out = out if named or ctx.flip() else None
  as_t = ctx.flip(0.3)
  labs = ctx.choice([list, tuple])(labs)
  cn = ctx.flip()

  def body(keep, ts, labs, con, out):
    if as_t:
      ts = [tn.Tensor(t, backend=b) for t in ts]
    keep(ts=ts, labs=labs, con=con, out=out)
    r = tn.ncon(ts, labs, con_order=con, out_order=out, check_network=cn,
                backend=b)
    return [r.array if as_t else r]

  ctx.sig(b, named, as_t)
  run(ctx, "ncon", {"ts": [x, y, z], "labs": labs, "con": con, "out": out},
      body)


# ---------------------------------------------------------- backend primitives


def herm(a):
  return a + np.conj(np.swapaxes(a, 0, 1))


def primitives(ctx, n, dt):
  """name -> (inputs, f(be, inputs...)); outputs are gauge invariant."""
  m, h = ctx.array((n, n), dt), herm(ctx.array((n, n), dt))
  well = ctx.array((n, n), dt) + 3 * np.eye(n)
  pos = np.abs(ctx.array((n, 3))) + 0.5
  a = ctx.array((2, n, 3), dt)
  v, w = ctx.array((n,), dt), ctx.array((3, n), dt)
  spd = well @ np.conj(well).T
  k = ctx.integers(1, 3)
  mask = ctx.array((n, n)) > 0
  axes = [[1], [0]]
  rec = lambda u, s, vh: np.tensordot(
      to_np(u) * to_np(s), to_np(vh), ([u.ndim - 1 if hasattr(
          u, "ndim") else len(u.shape) - 1], [0]))
  T = {
      "tensordot": ([m, well, axes], lambda B, x, y, z: B.tensordot(x, y, z)),
      "tensordot_int": ([m, m], lambda B, x, y: B.tensordot(x, y, 1)),
      "reshape": ([a, [3, 2 * n]], lambda B, x, s: B.reshape(
          x, np.array(s) if B.name == "numpy" and k == 1 else s)),
      "transpose": ([a, [2, 0, 1]], lambda B, x, p: B.transpose(x, p)),
      "transpose_default": ([a], lambda B, x: B.transpose(x)),
      "slice": ([a, (0, 0, 1), (2, 1, 2)],
                lambda B, x, s, l: B.slice(x, s, l)),
      "svd": ([a], lambda B, x: (lambda r: [rec(*r[:3]), r[1], r[3]])(
          B.svd(x, 1, max_singular_values=k))),
      "svd_err": ([a], lambda B, x: (lambda r: [rec(*r[:3]), r[1], r[3]])(
          B.svd(x, 2, max_truncation_error=0.3 * k, relative=True))),
      "qr": ([a], lambda B, x: (lambda q, r: np.tensordot(
          to_np(q), to_np(r), 1))(*B.qr(x, 2, k == 1))),
      "rq": ([a], lambda B, x: (lambda q, r: np.tensordot(
          to_np(q), to_np(r), 1))(*B.rq(x, 1, k == 1))),
      "shape_concat": ([[w, w]], lambda B, x: B.shape_concat(x, 0)),
      "shape": ([a], lambda B, x: [list(B.shape_tuple(x)), np.asarray(
          B.shape_tensor(x)), np.asarray(B.shape_prod([2, 3]))]),
      "sqrt": ([pos], lambda B, x: B.sqrt(x)),
      "outer": ([m, v], lambda B, x, y: B.outer_product(x, y)),
      "einsum": ([a, w], lambda B, x, y: B.einsum("abc,cd->adb", x, y,
                                                  optimize=True)),
      "norm": ([a.real.copy()], lambda B, x: B.norm(x)),
      "conj": ([a], lambda B, x: B.conj(x)),
      "eigh": ([h], lambda B, x: (lambda e, u: [e, (to_np(u) * to_np(e)) @
                                                to_np(u).conj().T])(
                                                    *B.eigh(x))),
      "addition": ([m, h], lambda B, x, y: B.addition(x, y)),
      "subtraction": ([m, m], lambda B, x, y: B.subtraction(x, y)),
      "multiply": ([m, h], lambda B, x, y: B.multiply(x, y)),
      "divide": ([m, spd + 5], lambda B, x, y: B.divide(x, y)),
      "index_update": ([m, mask], lambda B, x, y: B.index_update(
          x, y, B.convert_to_tensor(np.array(2.5, dtype=dt)))),
      "index_update_arr": ([m, mask, m], lambda B, x, y, z: B.index_update(
          x, y, z[y]) if B.name == "numpy" else B.conj(x)),
      "inv": ([well], lambda B, x: B.inv(x)),
      "broadcast_right": ([w, v], lambda B, x, y:
                          B.broadcast_right_multiplication(x, y)),
      "broadcast_left": ([v, np.swapaxes(w, 0, 1).copy()], lambda B, x, y:
                         B.broadcast_left_multiplication(x, y)),
      "trig": ([pos], lambda B, x: [B.sin(x), B.cos(x), B.exp(x), B.log(x)]),
      "expm": ([m], lambda B, x: B.expm(x)),
      "sum": ([a, (0, 2)], lambda B, x, ax: [B.sum(x, ax, keepdims=True),
                                             B.sum(x)]),
      "matmul": ([m, well], lambda B, x, y: B.matmul(x, y)),
      "diagflat": ([v], lambda B, x: [B.diagflat(x), B.diagflat(x, k)]),
      "diagonal": ([a], lambda B, x: B.diagonal(x, 0)),
      "trace": ([m], lambda B, x: B.trace(x, 0)),
      "abs": ([m], lambda B, x: B.abs(x)),
      "sign": ([pos - 1], lambda B, x: B.sign(x)),
      "pivot": ([a], lambda B, x: B.pivot(x, k % 2 + 1)),
      "power": ([pos], lambda B, x: B.power(x, 2.0)),
      "serialize": ([a], lambda B, x: B.deserialize_tensor(
          B.serialize_tensor(x)) if B.name == "numpy" else B.conj(x)),
      "convert": ([a], lambda B, x: B.convert_to_tensor(x)),
      "jit": ([m, v], lambda B, x, y: B.jit(lambda p, q: p @ q)(x, y) if
              B.name != "tensorflow" else B.conj(x)),
      "kron": ([m, well], lambda B, x, y: B.einsum("ab,cd->acbd", x, y,
                                                   optimize=False)),
  }
  for name in ("eigsh_lanczos", "eigs", "gmres"):
    T[name] = ([h if name == "eigsh_lanczos" else well, v, w],
               {"eigsh_lanczos": k_lanczos, "eigs": k_eigs,
                "gmres": k_gmres}[name])
  return T


def k_lanczos(B, m, v, w):
  if B.name != "numpy":
    return B.conj(v)
  args = [m]
  vals, vecs = B.eigsh_lanczos(lambda x, a: a @ x, args, initial_state=v,
                               num_krylov_vecs=len(v), reorthogonalize=True)
  assert len(args) == 1
  return [vals, np.outer(vecs[0], np.conj(vecs[0]))] if len(v) < 2 else vals


def k_eigs(B, m, v, w):
  if B.name != "numpy" or len(v) < 5:
    return B.conj(v)
  vals, _ = B.eigs(lambda x, a: a @ x, [m], initial_state=v, numeig=1,
                   num_krylov_vecs=len(v), which="LM")
  return np.abs(vals)


def k_gmres(B, m, v, w):
  if B.name != "numpy":
    return B.conj(v)
  x, _ = B.gmres(lambda x, a: a @ x, v, A_args=[m], x0=w[0], tol=1e-10,
                 num_krylov_vectors=len(v), maxiter=5)
  return x


def case_primitives(ctx):
  b = be_of(ctx)
  B = backend_factory.get_backend(b)
  dt = ctx.choice([F, F, C])
  n = ctx.integers(1, 6)
  if b == "jax":
    n = 3
  T = primitives(ctx, n, dt)
  name = ctx.choice(sorted(T))
  args, f = T[name]
  args = list(args)
  ctx.sig(b, str(dt))
  conv = b != "numpy"

  def body(keep, args):
    if conv:
      args = [B.convert_to_tensor(x) if isinstance(
          x, np.ndarray) and x.dtype.kind in "fc" else
              [B.convert_to_tensor(y) for y in x] if isinstance(
                  x, list) and isinstance(x[0], np.ndarray) else x
              for x in args]
    keep(args=args)
    return f(B, *args)

  run(ctx, "backend " + name, {"args": args}, body,
      tol=1e-6 if name in ("gmres", "eigs", "eigsh_lanczos") else 1e-8)


def case_tensors(ctx):
  """The tn.* functions of Tensors."""
  b = be_of(ctx)
  dt = ctx.choice([F, C])
  n = ctx.integers(1, 4)
  m, a = ctx.array((n, n), dt), ctx.array((2, n, 3), dt)
  h, well = herm(m), m + 4 * np.eye(n)
  pos = np.abs(ctx.array((n, 2))) + 0.5
  fs = {
      "operators": lambda x, y, h, w, p: [
          (x + x).array, (x - h).array, (x * w).array, (x @ w).array,
          x.conj().array, (x * 2.0).array, x.hconj().array, x.array],
      "methods": lambda x, y, h, w, p: [
          y.reshape((6 * n,)).array, y.transpose((1, 2, 0)).array,
          y.ravel().array, y.flatten().array, y.squeeze().array,
          y.shape, y.conj().array, x.H.array, x.T.array],
      "tensordot": lambda x, y, h, w, p: tn.tensordot(
          y, w, ([1], [0])).array,
      "reshapes": lambda x, y, h, w, p: [
          tn.reshape(y, (n, 6)).array, tn.transpose(y).array,
          tn.take_slice(y, (0, 0, 1), (1, n, 2)).array,
          tn.pivot(y, 2).array],
      "functions": lambda x, y, h, w, p: [
          g(p).array for g in (tn.sqrt, tn.sin, tn.cos, tn.exp, tn.log, tn.sign,
                               tn.abs)],
      "linalg": lambda x, y, h, w, p: [
          tn.inv(w).array, tn.expm(x).array, tn.eigh(h)[0].array,
          tn.trace(x).array, tn.diagonal(x).array, tn.norm(p)],
      "products": lambda x, y, h, w, p: [
          tn.outer(x, w).array, tn.kron(x, w).array,
          tn.einsum("ab,bc->ac", x, w, optimize=True).array],
      "splits": lambda x, y, h, w, p: [
          (lambda q, r: tn.tensordot(q, r, 1).array)(*tn.qr(y, 1)),
          (lambda q, r: tn.tensordot(q, r, 1).array)(*tn.rq(y, 2)),
          tn.svd(y, 1)[1].array],
      "like": lambda x, y, h, w, p: [
          tn.linalg.initialization.ones_like(y).array,
          tn.linalg.initialization.zeros_like(y).array],
  }
  name = ctx.choice(sorted(fs))
  if name in ("products",) and b == "tensorflow":
    name = "tensordot"

  def body(keep, m, a, h, well, pos):
    ts = [tn.Tensor(z, backend=b) for z in (m, a, h, well, pos)]
    keep(ts=ts)
    return fs[name](*ts)

  ctx.sig(b, str(dt))
  run(ctx, "tensor " + name, dict(m=m, a=a, h=h, well=well, pos=pos), body,
      tol=1e-8)


# ------------------------------------------------------------------------- MPS


def case_mps(ctx):
  backend, dtype, ts, _ = mps.gen_tensors(
      ctx, backend=ctx.choice(["numpy"] * 6 + ["symmetric", "jax"]), maxn=4,
      limit=300)
  if np.dtype(dtype).itemsize < 8 or dtype == np.complex64:
    ts = [np.asarray(t, np.float64 if dtype == np.float32 else C) for t in ts]
    dtype = ts[0].dtype.type
  n = len(ts)
  kind = ctx.choice(["build", "measure", "gates", "envs", "correlator",
                     "position"])
  c = ctx.integers(0, n - 1)
  site = ctx.integers(0, n - 1)
  d = [int(t.shape[1]) for t in ts]
  if backend == "symmetric":
    kind = ctx.choice(["build", "envs", "position"])
    ops, gate = [], None
  else:
    ops = [ctx.array((x, x), dtype) for x in d]
    s2 = min(site, n - 2)
    gate = ctx.array((d[s2], d[s2 + 1], d[s2], d[s2 + 1]),
                     dtype) if n > 1 else None
  canon = kind == "position" or ctx.flip(0.6)
  x = ctx.array((int(ts[site].shape[0]),) * 2, dtype)
  dirs = ctx.choice(["left", "right", 1, -1])
  sites = [ctx.integers(0, n - 1) for _ in range(2)]

  def body(keep, ts, ops, gate, x, sites):
    keep(ts=ts)
    m = tn.FiniteMPS(ts, center_position=c if canon else None,
                     canonicalize=canon, backend=backend)
    out = [mps.chain([to_np(t) for t in m.tensors])]
    snap = mps.snapshot(m)
    if kind == "measure":
      keep(ops=ops, sites=sites)
      out += m.measure_local_operator(ops, list(range(n)))
      out += [m.check_canonical() if canon else 0.0, m.check_orthonormality(
          "left", site)]
      mps_untouched(keep.ctx, m, snap, "measuring")
    elif kind == "correlator":
      qs = [s for s in sites if d[s] == d[sites[0]]]
      q0 = list(qs)
      out += m.measure_two_body_correlator(ops[site], ops[sites[0]], site,
                                           qs)
      ctx.check(qs == q0, "the correlator changed its list of sites")
      mps_untouched(keep.ctx, m, snap, "measure_two_body_correlator")
    elif kind == "envs":
      ql, qr = list(sites), [site]
      keep(ql=ql, qr=qr)
      l, r = m.left_envs(ql), m.right_envs(qr)
      out += [to_np(l[k]) for k in sorted(l)] + [to_np(r[k]) for k in sorted(r)]
      if backend != "symmetric":
        D = m.tensors[site].shape[0 if dirs in ("left", 1) else 2]
        e = np.eye(D, dtype=dtype)
        keep(e=e)
        out.append(m.apply_transfer_operator(site, dirs, e))
      mps_untouched(keep.ctx, m, snap, "environments")
    elif kind == "gates":
      keep(ops=ops, gate=gate)
      m.apply_one_site_gate(ops[site], site)
      if gate is not None:
        m.apply_two_site_gate(gate, s2, s2 + 1, max_singular_values=None)
      out.append(mps.chain([to_np(t) for t in m.tensors]))
    elif kind == "position":
      m.position(site)
      m.position(n - 1 - site, normalize=False)
      out.append(mps.chain([to_np(t) for t in m.tensors]))
    return out

  ctx.sig(backend, str(dtype), n, canon)
  run(ctx, "mps " + kind, {"ts": list(ts), "ops": ops, "gate": gate, "x": x,
                           "sites": sites}, body, tol=1e-7)


def mps_untouched(ctx, m, snap, what):
  mps.untouched(ctx, m, snap, what)


def case_mpo(ctx):
  dtype = ctx.choice([F, C])
  n = ctx.integers(2, 4)
  kind = ctx.choice(["xxz", "tfi", "mpo", "dmrg", "imps", "ff"])
  d, D = 2, 2
  Jz, Jxy, Bz = (ctx.array((n - 1,)), ctx.array((n - 1,)), ctx.array((n,)))
  W = [ctx.array((1 if i == 0 else 2, 1 if i == n - 1 else 2, d, d), dtype)
       for i in range(n)]
  A = [ctx.array((1 if i == 0 else D, d, 1 if i == n - 1 else D), dtype)
       for i in range(n)]
  I = [ctx.array((D, d, D), dtype) for _ in range(ctx.integers(1, 2))]
  x0 = ctx.array((D, D), dtype)
  steps = ctx.integers(1, 2)
  two = ctx.flip()

  def body(keep, Jz, Jxy, Bz, W, A, I, x0):
    keep(W=W, A=A, I=I)
    if kind == "xxz":
      m = tn.FiniteXXZ(Jz, Jxy, Bz, dtype)
      return m.tensors
    if kind == "tfi":
      return tn.FiniteTFI(Jz, Bz, dtype).tensors
    if kind == "ff":
      return tn.FiniteFreeFermion2D(0.5, 0.3, 1.1, 2, 2, dtype).tensors
    if kind == "mpo":
      m = tn.FiniteMPO(W, backend="numpy")
      im = tn.matrixproductstates.mpo.InfiniteMPO(
          [w for w in I4(I)], backend="numpy")
      out = list(m.tensors) + list(im.tensors)
      im.roll(1)
      return out + list(im.tensors)
    if kind == "dmrg":
      psi = tn.FiniteMPS(A, canonicalize=True, backend="numpy")
      H = tn.FiniteXXZ(Jz, Jxy, Bz, dtype)
      hs = list(H.tensors)
      keep(hs=hs)
      dm = tn.FiniteDMRG(psi, H)
      if two:
        e = dm.run_two_site(max_bond_dim=D, num_sweeps=steps,
                            num_krylov_vecs=6)
      else:
        e = dm.run_one_site(num_sweeps=steps, num_krylov_vecs=6)
      return [dm.compute_energy()]
    m = tn.InfiniteMPS(I, center_position=0, backend="numpy")
    snap = mps.snapshot(m)
    l = m.unit_cell_transfer_operator("left", x0)
    r = m.unit_cell_transfer_operator("right", x0)
    eta, _ = m.transfer_matrix_eigs("right", initial_state=x0)
    mps.untouched(keep.ctx, m, snap, "transfer operators")
    m.canonicalize(left_initial_state=x0, right_initial_state=x0)
    return [l, r, np.abs(eta)]

  ctx.sig(str(dtype), n)
  run(ctx, "mpo " + kind, dict(Jz=Jz, Jxy=Jxy, Bz=Bz, W=W, A=A, I=I, x0=x0),
      body, tol=1e-5 if kind in ("dmrg", "imps") else 1e-9)


def I4(I):
  return [np.einsum("apb,cqd->abpq", t, t) for t in I]


# ---------------------------------------------------------------- block sparse


def case_sparse(ctx):
  g = sym.group(ctx, 2)
  dt = ctx.choice([F, C])
  legs = sym.rand_legs(ctx, g, ctx.integers(2, 4), dims=(1, 2, 3), empty=0)
  x, mx = sym.make(ctx, g, legs, [1] * len(legs), dt)
  inv = [(q, not f) for q, f in legs]
  y, my = sym.make(ctx, g, inv, [1] * len(legs), dt)
  z, _ = sym.make(ctx, g, legs, [1] * len(legs), dt)
  q = sym.rand_q(ctx, g, ctx.integers(1, 4))
  sq, _ = sym.make(ctx, g, [(q, False), (q, True)], [1, 1], dt)
  if ctx.flip():
    p = ctx.perm(x.ndim)
    back = [p.index(i) for i in range(len(p))]
    x = x.transpose(p, shuffle=ctx.flip()).transpose(back)
    y = y.transpose(p, shuffle=ctx.flip()).transpose(back)
  r = x.ndim
  k = ctx.integers(1, r)
  ax = ctx.subset(range(r), k)
  ax2 = list(ax)
  perm = ctx.perm(r)
  row = ctx.integers(1, r - 1)
  BS = tn.block_sparse
  be = backend_factory.get_backend("symmetric")
  dims = [int(s) for s in x.shape]
  shape = [int(np.prod(dims[:row])), int(np.prod(dims[row:]))]
  perm2 = list(perm)
  shape2 = list(shape)
  fs = {
      "tensordot": lambda: BS.tensordot(x, y, (ax, ax2)),
      "outer": lambda: BS.outerproduct(x, sq),
      "arith": lambda: [x + z, x - z, x * 2.0, x / 3.0, 2.0 * x, -x if hasattr(
          x, "__neg__") else x],
      "transpose": lambda: [x.transpose(perm), BS.transpose(x, perm),
                            x.transpose(perm, shuffle=True)],
      "reshape": lambda: [BS.reshape(x, shape), x.reshape(dims)],
      "conj": lambda: [x.conj(), BS.conj(x)],
      "svd": lambda: (lambda u, s, v: [BS.tensordot(BS.tensordot(
          u, BS.diag(s), 1), v, 1)])(*BS.svd(x.reshape(shape), False)),
      "qr": lambda: (lambda q, r: BS.tensordot(q, r, 1))(
          *BS.qr(x.reshape(shape))),
      "eigh": lambda: BS.eigh(BS.tensordot(sq, sq.conj(), ([1], [1])))[0],
      "inv": lambda: [BS.pinv(sq)],
      "trace": lambda: BS.trace(sq),
      "norm": lambda: [np.asarray(BS.norm(x))],
      "diag": lambda: [BS.diag(sq)],
      "fns": lambda: [BS.sqrt(BS.abs(x)), BS.abs(x), BS.sign(x) if dt == F else
                      x],
      "like": lambda: [BS.ones_like(x), BS.zeros_like(x)],
      "copy": lambda: [x.copy(), x.contiguous()],
      "backend_svd": lambda: be.svd(x, row)[1],
      "backend_qr": lambda: (lambda q, r: be.tensordot(q, r, 1))(
          *be.qr(x, row)),
      "backend_rq": lambda: (lambda r, q: be.tensordot(r, q, 1))(
          *be.rq(x, row)),
      "broadcast": lambda: [be.addition(x, z), be.subtraction(x, z),
                            be.conj(x), be.norm(x)],
      "ncon": lambda: tn.ncon([x, y], [[i + 1 for i in range(r)]] * 2,
                              backend="symmetric"),
      "node": lambda: [tn.Node(x, backend="symmetric").reorder_axes(
          perm).tensor],
      "sum": lambda: [np.asarray(x.todense())],
  }
  if 0 in dims or x.data.size == 0 or sq.data.size == 0:
    raise core.Inconclusive("empty")
  name = ctx.choice(sorted(fs))
  objs = dict(x=x, y=y, z=z, sq=sq, ax=ax, ax2=ax2, perm=perm, shape=shape,
              dims=dims)
  frozen = Frozen(**objs)
  ix = [i for t in (x, y, z, sq) for i in t.sparse_shape]
  isnap = [idx_snap(i) for i in ix]
  cs = [c for t in (x, y, z, sq) for c in t.flat_charges]
  csnap = [(np.asarray(c.charges).tobytes(), np.asarray(
      c.unique_charges).tobytes(), np.asarray(c.charge_labels).tobytes(),
            str(c.charge_types)) for c in cs]
  ctx.note("sparse", name)
  ctx.sig("sparse", name, g, tuple(dims))
  ro = ctx.flip(0.4)
  plain = {"x": x.copy(), "y": y.copy(), "z": z.copy(), "sq": sq.copy()}
  if ro and name not in ():
    for t in (x, y, z, sq):
      t.data.setflags(write=False)
    ctx.obs("readonly_blocks")
  a = flat(fs[name]())
  for what in ("", " repeated"):
    if what:
      b = flat(fs[name]())
      for p_, q_ in zip(a, b):
        ctx.close(p_, q_, "sparse " + name + what, tol=1e-9)
    frozen.verify(ctx, "sparse " + name)
    for i, s in zip(ix, isnap):
      ctx.check(idx_snap(i) == s, "sparse %s changed an index", name)
    for c, s in zip(cs, csnap):
      ctx.check((np.asarray(c.charges).tobytes(), np.asarray(
          c.unique_charges).tobytes(), np.asarray(c.charge_labels).tobytes(),
                 str(c.charge_types)) == s, "sparse %s changed a charge", name)
  ctx.obs("computations")
  # in-place changes of a result leave the operands alone
  x2 = plain["x"]
  d0 = np.array(x2.todense())
  for t in (x2.copy(), x2 * 1.0, x2 + x2):
    t.data[...] = 5
    ctx.check(np.array_equal(x2.todense(), d0), "changing a result in place "
              "changes the operand")


def case_charges(ctx):
  """Index and charge algebra."""
  g = sym.group(ctx, 2)
  n = ctx.integers(1, 4)
  cs = [sym.make_charge(ctx, g, sym.rand_q(ctx, g, ctx.integers(1, 5)))
        for _ in range(n)]
  flows = [ctx.flip() for _ in range(n)]
  ix = [tn.Index(c, f) for c, f in zip(cs, flows)]
  snap = lambda: ([(np.asarray(c.charges).tobytes(), np.asarray(
      c.unique_charges).tobytes(), np.asarray(c.charge_labels).tobytes())
                   for c in cs], list(flows), [idx_snap(i) for i in ix])
  s = snap()
  c = cs[0]
  from tensornetwork.block_sparse import charge as ch
  target = np.asarray(c.unique_charges)[:1]
  t0 = target.copy()
  lab = np.asarray(ctx.subset(range(c.dim), ctx.integers(1, c.dim)))
  l0 = lab.copy()
  fs = {
      "fuse": lambda: [ch.fuse_charges(cs, flows).charges],
      "add": lambda: [(c + cs[-1]).charges, (c * True).charges,
                      (c * False).charges],
      "dual": lambda: [c.dual(True).charges, c.dual(False).charges],
      "unique": lambda: [c.unique().charges, c.unique(True, True, True)[1],
                         c.unique(True, True, True)[2]],
      "reduce": lambda: [c.reduce(target).charges, c.reduce(
          target, return_locations=True)[1]],
      "intersect": lambda: [c.intersect(cs[-1]).charges],
      "isin": lambda: [c[lab].charges, c.copy().charges],
      "eq": lambda: [np.asarray(c == target)],
      "fuse_indices": lambda: [bsindex.fuse_indices(ix).charges.charges],
      "flip": lambda: [ix[0].flip_flow().charges.charges],
      "copy": lambda: [ix[0].copy().charges.charges],
      "repr": lambda: [np.array(c.dim)],
      "matmul": lambda: [(c @ cs[-1]).charges] if c.dim == cs[-1].dim else [],
      "identity": lambda: [c.identity_charges(2).charges],
  }
  name = ctx.choice(sorted(fs))
  ctx.sig("charge", name, g, n)
  ctx.note("charges", name)
  repr(c), str(ix[0])
  a = flat(fs[name]())
  b = flat(fs[name]())
  for p, q in zip(a, b):
    ctx.check(np.array_equal(p, q), "charge %s repeated: different", name)
  ctx.check(snap() == s, "charge %s changed its operands", name)
  ctx.check(np.array_equal(target, t0) and np.array_equal(lab, l0),
            "charge %s changed an array argument", name)
  # results are values: copies do not share storage with the original
  d = c.copy()
  d.unique_charges[...] = 0
  ctx.check(snap() == s, "changing a copied charge changes the original")
  i2 = ix[0].copy()
  for cc in i2.flat_charges:
    cc.charge_labels[...] = 0
  ctx.check(snap() == s, "changing a copied index changes the original")
  ctx.obs("computations")
  ctx.stats.obs("mutation_observations", 1)


# ------------------------------------------------------------------ path, misc


def case_paths(ctx):
  d = lambda: ctx.integers(1, 4)
  a, b, c, e = d(), d(), d(), d()
  ts = [ctx.array((a, b)), ctx.array((b, c, e)), ctx.array((c, e, a))]
  labels = [[1, 2], [2, 3, 4], [3, 4, 1]]
  kind = ctx.choice(["ncon_solver", "adj", "greedy_size", "greedy_cost",
                     "full", "ord", "cost"])
  adj = np.log10(np.array([[1.0, 2, 3], [2, 1, 4], [3, 4, 1]]) *
                 ctx.integers(1, 5) + 1)
  adj = (adj + adj.T) / 2

  def body(keep, ts, labels, adj):
    keep(ts=ts, labels=labels)
    if kind == "ncon_solver":
      r = nconinterface.ncon_solver(ts, labels)
      return [np.asarray(r[0]), r[1], r[2]]
    if kind == "adj":
      return [nconinterface.ncon_to_adj(ts, labels)]
    if kind == "greedy_size":
      return list(pathsolvers.greedy_size_solve(adj))
    if kind == "greedy_cost":
      return list(pathsolvers.greedy_cost_solve(adj))
    if kind == "full":
      return list(pathsolvers.full_solve_complete(adj))[:2]
    order = np.array([[0, 0], [1, 1]])
    keep(order=order)
    if kind == "ord":
      return [np.asarray(nconinterface.ord_to_ncon(labels, order))]
    con = [1, 2, 3, 4]
    keep(con=con)
    return [nconinterface.ncon_cost_check(ts, labels, con)]

  run(ctx, "path " + kind, dict(ts=ts, labels=labels, adj=adj), body)


def setup():
  nets.setup_jax()


CHECK = core.Check(
    "C24",
    [
        core.Group("nodes", case_nodes, 2500, 40000),
        core.Group("ncon", case_ncon, 700, 10000),
        core.Group("primitives", case_primitives, 3000, 50000),
        core.Group("tensors", case_tensors, 600, 8000),
        core.Group("mps", case_mps, 700, 10000),
        core.Group("mpo", case_mpo, 300, 4000),
        core.Group("sparse", case_sparse, 1500, 25000),
        core.Group("charges", case_charges, 600, 8000),
        core.Group("paths", case_paths, 300, 3000),
    ],
    rule="each computation twice on hostile arrays (read-only, strided, "
         "reversed, Fortran, windows, shared) and once on plain copies, all "
         "arguments snapshotted; distinct by computation and shapes",
    required=("computations", "hostile_readonly", "hostile_strided",
              "hostile_reversed", "hostile_fortran", "hostile_window",
              "hostile_roview", "aliased_inputs", "readonly_blocks"),
    setup=setup,
)
