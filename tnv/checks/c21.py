"""C21: quantum operators compose like the matrices they represent."""
import numpy as np
import tensornetwork as tn
from tensornetwork import contractors
from tensornetwork.network_components import CopyNode, Node
from tensornetwork.quantum import quantum as Q

from tnv import core, nets
from tnv.dense import Frozen, esum, to_np

MAXSIZE = 600


class Val:
  """A Qu object next to its dense tensor (axes: out, then in)."""

  def __init__(self, q, a, no):
    self.q, self.a, self.no = q, np.asarray(a), no

  @property
  def ni(self):
    return self.a.ndim - self.no

  @property
  def out(self):
    return list(self.a.shape[:self.no])

  @property
  def inn(self):
    return list(self.a.shape[self.no:])

  def mat(self):
    return self.a.reshape(int(np.prod(self.out, dtype=int)),
                          int(np.prod(self.inn, dtype=int)))


def classify(ctx, v, what):
  q = v.q
  cls = (Q.QuScalar if v.a.ndim == 0 else Q.QuAdjointVector if v.no == 0 else
         Q.QuVector if v.ni == 0 else Q.QuOperator)
  ctx.check(type(q) is cls, "%s: result is a %s, expected %s", what,
            type(q).__name__, cls.__name__)
  ctx.eq(list(q.out_space), v.out, what + ": out_space")
  ctx.eq(list(q.in_space), v.inn, what + ": in_space")
  ctx.eq((q.is_scalar(), q.is_vector(), q.is_adjoint_vector()),
         (cls is Q.QuScalar, cls is Q.QuVector, cls is Q.QuAdjointVector),
         what + ": is_scalar/is_vector/is_adjoint_vector")
  if cls in (Q.QuVector, Q.QuAdjointVector):
    ctx.eq(list(q.space), list(v.a.shape), what + ": space")
    ctx.check(list(q.subsystem_edges) == list(
        q.out_edges if cls is Q.QuVector else q.in_edges),
              "%s: subsystem_edges", what)
  q.check_network()
  ctx.check(len(q.nodes) > 0, "%s: no nodes", what)
  for n in q.ref_nodes:
    ctx.check(n in q.nodes, "%s: a reference node is not in the network", what)
  ctx.obs("classified_" + cls.__name__)


def value(ctx, v):
  """Dense value of the object's network, not using the library to contract."""
  q = v.q
  return nets_value(q)


def nets_value(q):
  from tnv.dense import network_value
  return network_value(list(q.nodes), list(q.out_edges) + list(q.in_edges))


def compare(ctx, got, want, what):
  ctx.close(np.asarray(to_np(got)), want, what,
            tol=1e-8 * max(1.0, np.abs(want).max() if want.size else 1.0))


def settle(ctx, v, what, dense_too=True):
  classify(ctx, v, what)
  if dense_too and v.a.size <= MAXSIZE:
    compare(ctx, value(ctx, v), v.a, what + ": value of the network")
    ctx.obs("network_values")
  return v


def leaf(ctx, S, out=None, inn=None, depth=0):
  """A leaf with the given spaces (None: random)."""
  be, dtype = S["backend"], S["dtype"]

  def space(n):
    return [ctx.choice([1, 2, 2, 3]) for _ in range(n)]

  if out is None and inn is None and ctx.flip(0.2):
    return any_network(ctx, S)
  if out is None and inn is None:
    kind = ctx.choice(["op", "op", "vec", "adj", "id", "scalar"])
    k = ctx.integers(1, 3)
    if kind == "op":
      out, inn = space(k), space(ctx.integers(1, 3))
      if ctx.flip(0.6):
        inn = list(out)
    elif kind == "vec":
      out, inn = space(k), []
    elif kind == "adj":
      out, inn = [], space(k)
    elif kind == "id":
      out = space(k)
      inn = list(out)
    else:
      out, inn = [], []
  elif out is None:
    kind = "any"
    out = ctx.choice([[], list(inn), list(inn), space(ctx.integers(1, 2))])
  elif inn is None:
    kind = "any"
    inn = ctx.choice([[], list(out), list(out), space(ctx.integers(1, 2))])
  no = len(out)
  S["leaves"] = S.get("leaves", 0) + 1
  if out == inn and out and (kind == "id" or ctx.flip(0.25)):
    q = Q.identity(tuple(out) if ctx.flip() else list(out), backend=be,
                   dtype=dtype)
    d = int(np.prod(out))
    ctx.note("identity", out)
    ctx.obs("identities")
    return settle(ctx, Val(q, np.eye(d, dtype=dtype).reshape(out + inn), no),
                  "identity")
  shape = out + inn
  style = ctx.choice(["tensor", "tensor", "network", "network", "hyper"])
  if not shape:
    a = ctx.array((), dtype)
    ctx.note("scalar")
    if ctx.flip():
      return settle(ctx, Val(Q.QuScalar.from_tensor(a, backend=be), a, 0),
                    "QuScalar.from_tensor")
    x, y = ctx.array((3,), dtype), ctx.array((3,), dtype)
    n1, n2 = Node(x, backend=be), Node(y, backend=be)
    n1[0] ^ n2[0]
    q = (Q.QuScalar([n1]) if ctx.flip() else
         Q.quantum_constructor([], [], [n2]))
    return settle(ctx, Val(q, np.dot(x, y), 0), "scalar network")
  if style == "tensor":
    t = ctx.array(shape, dtype)
    p = ctx.perm(len(shape))  # axis p[i] of the stored tensor is leg i
    stored = np.transpose(t, np.argsort(p))
    fr = Frozen(stored=stored)
    if no and inn:
      q = Q.QuOperator.from_tensor(stored, p[:no], p[no:], backend=be)
    else:
      cls = Q.QuVector if no else Q.QuAdjointVector
      if p == sorted(p) and ctx.flip():
        q = cls.from_tensor(stored, backend=be)
      else:
        q = cls.from_tensor(stored, p, backend=be)
    fr.verify(ctx, "from_tensor")
    ctx.note("tensor", out, inn, "axes", p)
    ctx.obs("from_tensor")
    return settle(ctx, Val(q, t, no), "from_tensor")
  # a network of several nodes, possibly disconnected or with copy tensors
  n = len(shape)
  k = ctx.integers(1, 3)
  owner = [ctx.integers(0, k - 1) for _ in range(n)]
  bonds = [(ctx.integers(0, k - 1), ctx.integers(0, k - 1), ctx.integers(1, 3))
           for _ in range(ctx.integers(0, 3))]
  labels = [[] for _ in range(k)]
  dims = {}
  for i, o in enumerate(owner):
    labels[o].append(("leg", i))
    dims["leg", i] = shape[i]
  for j, (x, y, d) in enumerate(bonds):
    labels[x].append(("bond", j))
    labels[y].append(("bond", j))
    dims["bond", j] = d
  hyper = style == "hyper" and n
  labels = [ctx.shuffled(l) for l in labels]
  arrays = [ctx.array([dims[t] for t in l], dtype) for l in labels]
  nodes = [Node(a, backend=be) for a in arrays]
  ends = {}
  for node, l in zip(nodes, labels):
    for ax, t in enumerate(l):
      ends.setdefault(t, []).append(node[ax])
  for t, e in ends.items():
    if t[0] == "bond":
      e[0] ^ e[1]
  legs = [ends["leg", i][0] for i in range(n)]
  arrs, labs = list(arrays), [list(l) for l in labels]
  outl = [("leg", i) for i in range(n)]
  if hyper:
    i = ctx.integers(0, n - 1)
    rank = ctx.integers(2, 3)
    c = CopyNode(rank, shape[i], backend=be, dtype=dtype)
    legs[i] ^ c[0]
    legs[i] = c[1]
    from tnv.dense import delta
    arrs.append(delta(rank, shape[i], dtype))
    l = [("leg", i), ("new", i)]
    outl[i] = ("new", i)
    if rank == 3:
      w = ctx.array((shape[i],), dtype)
      m = Node(w, backend=be)
      c[2] ^ m[0]
      arrs.append(w)
      l.append(("w", i))
      labs.append(l)
      labs.append([("w", i)])
    else:
      labs.append(l)
    ctx.obs("copy_tensors")
  dense = esum(arrs, labs, outl)
  oe, ie = legs[:no], legs[no:]
  # a disconnected part without any leg is only reachable as a reference node
  ref = nodes
  q = Q.quantum_constructor(oe, ie, ref) if ctx.flip() or not (oe and ie) else \
      Q.QuOperator(oe, ie, ref)
  ctx.note("network", out, inn, "nodes", k, "bonds", bonds, style)
  ctx.obs("from_network")
  return settle(ctx, Val(q, dense, no), "network")


def any_network(ctx, S):
  """An operator made of a network with a history, copy nodes included."""
  from tnv.dense import network_value
  nodes = nets.gen_network(ctx, S["backend"] or "numpy", n=ctx.integers(1, 4),
                           dtype=S["dtype"], copy_nodes=0.5, maxrank=3,
                           maxopen=4)
  done = nets.shake(ctx, nodes) if ctx.flip(0.6) else []
  if any(d[1] == "CopyNode" and d[0] in ("flatten", "split", "slice")
         for d in done):
    ctx.obs("reshaped_copy_nodes")
  edges = ctx.shuffled(tn.get_all_dangling(nodes))
  no = ctx.integers(0, len(edges))
  dense = network_value(nodes, edges)
  if dense.size > MAXSIZE:
    raise core.Inconclusive("too large")
  q = Q.quantum_constructor(edges[:no], edges[no:], nodes)
  ctx.note("any network", nets.describe(nodes), no)
  S["leaves"] = S.get("leaves", 0) + 1
  ctx.obs("any_networks")
  return settle(ctx, Val(q, dense, no), "network with a history")


def contracted(ctx, S, v, how):
  """contract()/eval() in place; the object keeps its value."""
  q = v.q
  con = ctx.choice([contractors.greedy, contractors.greedy, contractors.branch,
                    contractors.auto, contractors.optimal])
  if len(q.nodes) > 7:
    con = contractors.greedy
  if how == "eval":
    if ctx.flip(0.3) and v.a.ndim:
      edges = list(q.out_edges) + list(q.in_edges)
      p = ctx.perm(len(edges))
      res = q.eval(con, final_edge_order=[edges[i] for i in p])
      compare(ctx, res, np.transpose(v.a, p), "eval with final_edge_order")
    else:
      res = q.eval(con) if ctx.flip() else q.eval(contractor=con)
      compare(ctx, res, v.a, "eval")
    ctx.obs("evaluated")
  else:
    if ctx.flip(0.3) and v.a.ndim:
      edges = list(q.out_edges) + list(q.in_edges)
      res = q.contract(con, final_edge_order=edges)
    else:
      res = q.contract(con)
    ctx.check(res is q, "contract did not return the object")
    ctx.eq(len(q.nodes), 1, "nodes after contract")
    ctx.obs("contracted")
  settle(ctx, v, how)
  return v


def mark(q):
  return (nets.fingerprint(sorted(q.nodes, key=id)), [id(e) for e in q.out_edges],
          [id(e) for e in q.in_edges], sorted(id(n) for n in q.ref_nodes),
          sorted(id(e) for e in q.ignore_edges), type(q))


def grow(ctx, S, v):
  """One composition; returns the new value, operands are watched."""
  ops = ["tensor", "scale", "scale", "adjoint"]
  ops += ["left", "right", "left", "right"]
  if v.out == v.inn:
    ops += ["trace"]
    if v.no:
      ops += ["self", "partial", "partial"]
  if v.no and not v.ni or v.ni and not v.no:
    ops += ["projector", "reduced", "reduced"]
  if any(a == b for a, b in zip(v.out, v.inn)):
    ops += ["partial"]
  ops += ["norm"]
  op = ctx.choice(ops)
  others = []
  what = op
  if op == "tensor":
    w = leaf(ctx, S)
    if v.a.size * w.a.size > MAXSIZE:
      return v
    if ctx.flip():
      a, b = v, w
    else:
      a, b = w, v
    others = [w]
    make = lambda: a.q.tensor_product(b.q)
    t = np.multiply.outer(a.a, b.a)
    n1, n2 = a.a.ndim, b.a.ndim
    order = (list(range(a.no)) + list(range(n1, n1 + b.no)) +
             list(range(a.no, n1)) + list(range(n1 + b.no, n1 + n2)))
    dense, no = np.transpose(t, order), a.no + b.no
  elif op in ("left", "right"):
    w = leaf(ctx, S, inn=v.out) if op == "left" else leaf(ctx, S, out=v.inn)
    a, b = (w, v) if op == "left" else (v, w)
    dense = (a.mat() @ b.mat()).reshape(a.out + b.inn)
    if dense.size > MAXSIZE:
      return v
    no = a.no
    others = [w]
    make = lambda: a.q @ b.q
  elif op == "self":
    dense, no = (v.mat() @ v.mat()).reshape(v.out + v.inn), v.no
    make = lambda: v.q @ v.q
  elif op == "scale":
    kind = ctx.choice(["node", "array", "number", "qscalar", "npscalar"])
    x = ctx.array((), S["dtype"])
    be = S["backend"]
    if kind == "node":
      s = Node(x, backend=be)
    elif kind == "array" or be != "numpy":
      s = tn.backends.backend_factory.get_backend(be).convert_to_tensor(
          np.asarray(x))
      kind = "array"
    elif kind == "number":
      s = complex(x) if np.iscomplexobj(x) else float(x)
    elif kind == "npscalar":
      s = x[()]
    else:
      s = Q.QuScalar.from_tensor(x, backend=be)
    # the left multiplication by backend tensors is dispatched by the tensor
    left = ctx.flip() and (kind in ("node", "number", "qscalar", "npscalar") or
                           be == "numpy")
    if kind == "node" and left:
      left = False
    what = "scale by %s %s" % (kind, "left" if left else "right")
    make = (lambda: s * v.q) if left else (lambda: v.q * s)
    dense, no = v.a * x, v.no
    if kind == "qscalar":
      others = [Val(s, x, 0)]
  elif op == "adjoint":
    make = v.q.adjoint
    dense = np.conj(np.transpose(v.a, list(range(v.no, v.a.ndim)) + list(
        range(v.no))))
    no = v.ni
  elif op == "trace":
    make = v.q.trace
    dense, no = np.trace(v.mat()), 0
  elif op == "partial":
    ok = [i for i, (x, y) in enumerate(zip(v.out, v.inn)) if x == y]
    which = ctx.subset(ok)
    form = ctx.choice([list, tuple, set])(which)
    what = "partial_trace(%s)" % (form,)
    make = lambda: v.q.partial_trace(form)
    dense, no = ptrace(v.a, v.no, which), v.no - len(which)
  elif op == "norm":
    make = v.q.norm
    dense, no = np.sum(np.abs(v.a)**2).astype(v.a.dtype), 0
  else:
    # |v><v| for vectors; an adjoint vector <v| is treated the same way
    ket = v.a if v.no else np.conj(v.a)
    rho = np.multiply.outer(ket, np.conj(ket))
    if rho.size > MAXSIZE:
      return v
    k = ket.ndim
    if op == "projector":
      make, dense, no = v.q.projector, rho, k
    else:
      which = ctx.subset(range(k))
      what = "reduced_density(%s)" % which
      make = lambda: v.q.reduced_density(which)
      dense, no = ptrace(rho, k, which), k - len(which)
  before = [mark(v.q)] + [mark(w.q) for w in others]
  ctx.note(what, "->", np.shape(dense))
  ctx.sig(what, np.shape(dense))
  res = Val(make(), dense, no)
  after = [mark(v.q)] + [mark(w.q) for w in others]
  ctx.check(before == after, "%s changed an operand", what)
  ctx.check(not (set(res.q.nodes) & set(v.q.nodes)), "%s: the result shares "
            "nodes with an operand", what)
  ctx.obs("op_" + op)
  settle(ctx, res, what)
  if ctx.flip(0.3):
    settle(ctx, v, "operand after " + what)
  S["pool"].append(v)
  return res


def ptrace(a, no, which):
  labs = [("o", i) for i in range(no)] + [
      ("o", i) if i in which else ("i", i) for i in range(a.ndim - no)]
  outl = [("o", i) for i in range(no) if i not in which] + [
      ("i", i) for i in range(a.ndim - no) if i not in which]
  return esum([a], [labs], outl)


def case_expr(ctx, backend="numpy"):
  dtype = ctx.choice([np.float64, np.complex128])
  S = {"backend": backend, "dtype": dtype, "pool": []}
  ctx.note(backend, np.dtype(dtype).name)
  ctx.sig(backend, np.dtype(dtype).char)
  v = leaf(ctx, S)
  for _ in range(ctx.integers(1, 6)):
    v = grow(ctx, S, v)
    if len(v.q.nodes) > 60:
      break
    big = np.abs(v.a).max() if v.a.size else 0
    if big > 1e6:
      break
    if ctx.flip(0.25):
      v = contracted(ctx, S, v, ctx.choice(["eval", "contract"]))
    if S["pool"] and ctx.flip(0.15):
      v = ctx.choice(S["pool"])
  contracted(ctx, S, v, "eval")
  if ctx.flip(0.3):
    contracted(ctx, S, v, "eval")
  if S["pool"] and ctx.flip(0.5):
    w = ctx.choice(S["pool"])
    settle(ctx, w, "operand at the end")
    contracted(ctx, S, w, "eval")


def case_wide(ctx):
  """Many subsystems: products of small pieces, combined, traced, evaluated."""
  n = ctx.integers(8, 18)
  dims = [ctx.choice([2, 2, 2, 1, 3]) for _ in range(n)]
  dtype = ctx.choice([np.float64, np.complex128])

  def pieces():
    out, i = [], 0
    while i < n:
      k = min(n - i, ctx.choice([1, 1, 2, 2]))
      out.append(list(range(i, i + k)))
      i += k
    return out

  def product(qs):
    while len(qs) > 1:
      i = ctx.integers(0, len(qs) - 2)
      qs[i:i + 2] = [qs[i].tensor_product(qs[i + 1])]
    return qs[0]

  arrays, labels = [], []

  def vector():
    qs, mine = [], []
    for block in pieces():
      t = ctx.array([dims[i] for i in block], dtype)
      t = t / max(np.linalg.norm(t), 1e-3)
      qs.append(Q.QuVector.from_tensor(t))
      mine.append((t, block))
    return product(qs), mine

  def operator(lo, li):
    """Adds the operator's arrays with labels (lo, i), (li, i)."""
    qs = []
    for block in pieces():
      d, k = [dims[i] for i in block], len(block)
      if ctx.flip(0.25):
        qs.append(Q.identity(d, dtype=dtype))
        t = np.eye(int(np.prod(d)), dtype=dtype).reshape(d + d)
      else:
        t = ctx.array(d + d, dtype)
        t = t / max(np.linalg.norm(t.reshape(int(np.prod(d)), -1), 2), 1e-3)
        qs.append(Q.QuOperator.from_tensor(t, list(range(k)),
                                           list(range(k, 2 * k))))
      arrays.append(t)
      labels.append([(lo, i) for i in block] + [(li, i) for i in block])
    return product(qs)

  def put(mine, l, conj=False):
    for t, block in mine:
      arrays.append(t.conj() if conj else t)
      labels.append([(l, i) for i in block])

  kind = ctx.choice(["expectation", "density", "overlap"])
  ctx.note(kind, dims)
  psi, mine = vector()
  if kind == "overlap":
    phi, other = vector()
    put(other, "p", True)
    put(mine, "p")
    q, out = phi.adjoint() @ psi, []
  elif kind == "expectation":
    put(mine, "p")
    put(mine, "q", True)
    A = operator("q", "p")
    q = ((psi.adjoint() @ A) @ psi if ctx.flip() else
         psi.adjoint() @ (A @ psi))
    out = []
  else:
    keep = sorted(ctx.subset(range(n), ctx.integers(0, 4)))
    rest = ctx.shuffled([i for i in range(n) if i not in keep])
    if ctx.flip():
      q = psi.reduced_density(rest if ctx.flip() else set(rest))
      put(mine, "q")
    else:
      A = operator("q", "p")
      put(mine, "p")
      # traced in one go or in two
      if ctx.flip() or not rest:
        q = (A @ psi.projector()).partial_trace(rest)
      else:
        a = rest[:len(rest) // 2]
        q = (A @ psi.projector()).partial_trace(a)
        left = [i for i in range(n) if i not in a]
        q = q.partial_trace([left.index(i) for i in rest if i not in a])
    # the bra is joined to the ket on the traced subsystems
    for t, block in mine:
      arrays.append(t.conj())
      labels.append([("q" if i in rest else "r", i) for i in block])
    out = [("q", i) for i in keep] + [("r", i) for i in keep]
  want = esum(arrays, labels, out)
  ctx.sig(kind, dims, [len(l) for l in labels], len(out))
  q.check_network()
  got = q.eval(contractors.greedy)
  compare(ctx, got, want, "%s of %d subsystems" % (kind, n))
  if ctx.flip(0.4):
    q.contract(contractors.greedy)
    compare(ctx, q.eval(), want, "%s after contract" % kind)
  ctx.obs("wide_" + kind)


def case_backends(ctx):
  be = ctx.choice(["jax", "tensorflow"])
  if be == "jax":
    nets.setup_jax()
  case_expr(ctx, be)


def case_identities(ctx):
  """Products made of many identities, in any bracketing."""
  space = [ctx.choice([1, 2, 3]) for _ in range(ctx.integers(1, 2))]
  d = int(np.prod(space))
  k = len(space)
  n = ctx.integers(1, 5)
  factors = []
  m = np.eye(d)
  for i in range(n):
    if ctx.flip(0.7):
      factors.append(Q.identity(space))
    else:
      t = ctx.array((d, d))
      m = m @ t
      factors.append(Q.QuOperator.from_tensor(t.reshape(space * 2), range(k),
                                              range(k, 2 * k)))
  ctx.note("factors", n, space)
  ctx.sig(n, space)
  while len(factors) > 1:
    i = ctx.integers(0, len(factors) - 2)
    factors[i:i + 2] = [factors[i] @ factors[i + 1]]
  q = factors[0]
  if ctx.flip(0.4):
    which = ctx.subset(range(k))
    q = q.partial_trace(which)
    want, no = ptrace(m.reshape(space * 2), k, which), k - len(which)
    ctx.sig("traced", which)
  else:
    want, no = m.reshape(space * 2), k
  v = settle(ctx, Val(q, want, no), "identity chain")
  if ctx.flip(0.3):
    contracted(ctx, {}, v, "contract")
  contracted(ctx, {}, v, "eval")
  ctx.obs("identity_chains")


def case_ignore(ctx):
  """Networks with an ignored dangling edge."""
  d, e, f = (ctx.integers(1, 3) for _ in range(3))
  t = ctx.array((d, d, f))
  n = Node(t)
  ctx.rejects(lambda: Q.QuOperator([n[0]], [n[1]]), "an unaccounted dangling "
              "edge", (ValueError,))
  q = Q.QuOperator([n[0]], [n[1]], None, [n[2]])
  m = ctx.array((d, e))
  p = Q.QuOperator.from_tensor(m, [0], [1])
  ctx.sig(d, e, f)
  r = q @ p
  got = r.eval()  # ignored edges come first
  ctx.close(to_np(got), np.einsum("abf,bc->fac", t, m), "ignored edge: eval")
  tr = q.trace()
  ctx.close(to_np(tr.eval()), np.einsum("aaf->f", t), "ignored edge: trace")
  ad = q.adjoint()
  ctx.close(to_np(ad.eval()), np.conj(np.einsum("abf->fba", t)),
            "ignored edge: adjoint")
  te = p.tensor_product(q)
  ctx.close(to_np(te.eval()), np.einsum("xy,abf->fxayb", m, t),
            "ignored edge: tensor_product")
  x = Q.identity([d]) @ q
  ctx.close(to_np(x.eval()), np.einsum("abf->fab", t), "ignored edge: identity")
  ctx.obs("ignored_edges")


def case_invalid(ctx):
  dtype = np.float64
  op = lambda o, i: Q.QuOperator.from_tensor(
      ctx.array(o + i), range(len(o)), range(len(o), len(o) + len(i)))
  V = (ValueError,)
  kind = ctx.choice(["count", "dim", "elementwise", "nonscalar", "trace",
                     "dangling", "outedge", "inedge", "noref", "ignore",
                     "twice"])
  ctx.sig(kind)
  ctx.note(kind)
  ctx.obs("invalid_" + kind)
  a = [ctx.integers(1, 3) for _ in range(ctx.integers(1, 3))]
  b = [ctx.integers(1, 3) for _ in range(ctx.integers(1, 3))]
  c = [ctx.integers(1, 3) for _ in range(ctx.integers(0, 3))]
  x = op(a, b)
  before = mark(x)
  if kind == "count":
    bad = b[:-1] if ctx.flip() else b + [2]
    y = op(bad, c) if bad or c else None
    if y is None:
      return
    ctx.rejects(lambda: x @ y, "@ with another number of subsystems", V)
  elif kind == "dim":
    bad = list(b)
    bad[ctx.integers(0, len(b) - 1)] += ctx.integers(1, 2)
    ctx.rejects(lambda: x @ op(bad, c), "@ with other dimensions", V)
    if sorted(b) != b:
      y = op(sorted(b), c)
      ctx.rejects(lambda: x @ y, "@ with permuted dimensions", V)
  elif kind == "elementwise":
    y = op(a, b)
    ctx.rejects(lambda: x * y, "elementwise product of operators", V)
  elif kind == "nonscalar":
    t = ctx.array((ctx.integers(1, 3),))
    s = ctx.choice([t, Node(t), t[None]])
    ctx.rejects(lambda: x * s, "product with a non-scalar tensor", V)
  elif kind == "trace":
    y = op(a + [2], a + [3])
    which = [len(a)]
    ctx.rejects(lambda: y.partial_trace(which), "partial trace over different "
                "dimensions", V)
    ctx.rejects(y.trace, "trace over different dimensions", V)
  elif kind == "dangling":
    n = Node(ctx.array((2, 2, 2)))
    f = ctx.choice([
        lambda: Q.QuOperator([n[0]], [n[1]]), lambda: Q.QuVector([n[0], n[1]]),
        lambda: Q.QuAdjointVector([n[2]]), lambda: Q.QuScalar([n])])
    ctx.rejects(f, "unexpected dangling edges", V)
  elif kind in ("outedge", "inedge", "ignore"):
    n, m = Node(ctx.array((2, 2))), Node(ctx.array((2, 2)))
    e = n[1] ^ m[0]
    f = {"outedge": lambda: Q.QuOperator([n[0], e], [m[1]]),
         "inedge": lambda: Q.QuOperator([n[0]], [m[1], e]),
         "ignore": lambda: Q.QuOperator([n[0]], [m[1]], None, [e])}[kind]
    ctx.rejects(f, "a contracted edge as " + kind, V)
  elif kind == "twice":
    n = Node(ctx.array((2, 2, 2)[:ctx.integers(2, 3)]))
    es = n.get_all_edges()
    e = ctx.choice(es)
    f = ctx.choice([
        lambda: Q.QuOperator(es, [e]), lambda: Q.QuOperator([e] + es, [e]),
        lambda: Q.QuVector(es + [e]), lambda: Q.QuAdjointVector([e] + es),
        lambda: Q.QuOperator(es[:1], es[1:], None, [e]),
        lambda: Q.QuVector.from_tensor(n.tensor, [0] + list(range(len(es))))])
    ctx.rejects(f, "an edge listed twice", V)
  else:
    f = ctx.choice([lambda: Q.QuOperator([], []), lambda: Q.QuScalar([]),
                    lambda: Q.quantum_constructor([], [])])
    ctx.rejects(f, "a scalar without reference nodes", V)
  ctx.check(mark(x) == before, "a rejected composition changed its operand")


CHECK = core.Check(
    "C21",
    [
        core.Group("expr", case_expr, 1500, 30000),
        core.Group("backends", case_backends, 60, 1200),
        core.Group("wide", case_wide, 200, 4000),
        core.Group("identities", case_identities, 400, 6000),
        core.Group("ignore", case_ignore, 60, 600),
        core.Group("invalid", case_invalid, 400, 3000),
    ],
    rule="random expressions evaluated by the library and by dense algebra, "
         "operands fingerprinted around every composition; distinct by "
         "sequence of compositions and spaces",
    required=("op_tensor", "op_left", "op_right", "op_self", "op_scale",
              "op_adjoint", "op_trace", "op_partial", "op_norm",
              "op_projector", "op_reduced", "evaluated", "contracted",
              "identity_chains", "ignored_edges", "copy_tensors",
              "wide_expectation", "wide_density", "rejections",
              "any_networks", "reshaped_copy_nodes", "invalid_twice"),
)
