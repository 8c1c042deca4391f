"""Random networks, the structural monitor and the shadow interpreter."""
import itertools

import numpy as np
import tensornetwork as tn

from tnv.dense import to_np, delta, esum

BACKENDS = ("numpy", "tensorflow", "jax")
UNNAMED = "__unnamed_edge__"


def setup_jax():
  import jax
  jax.config.update("jax_enable_x64", True)


def pick_backend(ctx, weights=(0.7, 0.2, 0.1)):
  r = ctx.rng.random()
  if r < weights[0]:
    return "numpy"
  if r < weights[0] + weights[1]:
    return "tensorflow"
  return "jax"


def pick_dtype(ctx):
  return ctx.choice([np.float64, np.float64, np.complex128, np.complex128,
                     np.float32])


def gen_network(ctx, backend="numpy", n=None, dtype=None, copy_nodes=0.25,
                maxrank=4, dims=(1, 2, 3), p_connect=0.75, names=True,
                p_trace=0.15, maxopen=6, scalars=True, ints=False):
  """A random network built through the public constructors."""
  dtype = dtype or pick_dtype(ctx)
  n = n or ctx.integers(1, 5)
  nodes = []
  for i in range(n):
    lo = 0 if scalars and ctx.flip(0.15) else 1
    rank = ctx.integers(lo, maxrank)
    axis_names = None
    if names and ctx.flip(0.4):
      axis_names = ["n%d_%s" % (i, c) for c in "abcdefghijklmnopqrst"[:rank]]
    name = "node%d" % i if (not names or ctx.flip(0.8)) else None
    if rank >= 1 and ctx.rng.random() < copy_nodes:
      node = tn.CopyNode(rank, ctx.choice(dims), name=name,
                         axis_names=axis_names, backend=backend, dtype=dtype)
    else:
      shape = [ctx.choice(dims) for _ in range(rank)]
      node = tn.Node(ctx.array(shape, dtype, ints=ints), name=name,
                     axis_names=axis_names, backend=backend)
    nodes.append(node)
  free = [(nd, k) for nd in nodes for k in range(len(nd.shape))]
  free = ctx.shuffled(free)
  k = 0
  while free:
    nd, ax = free.pop()
    if len(free) + 1 <= maxopen and not ctx.flip(p_connect):
      continue
    cands = [j for j, (m, b) in enumerate(free)
             if m.shape[b] == nd.shape[ax] and
             (m is not nd or ctx.flip(p_trace))]
    if not cands:
      continue
    m, b = free.pop(ctx.choice(cands))
    style = ctx.integers(0, 2)
    if style == 0:
      nd[ax] ^ m[b]
    elif style == 1:
      tn.connect(nd[ax], m[b])
    else:
      tn.connect(nd[ax], m[b], name="e%d" % k)
    k += 1
  return nodes


def shake(ctx, nodes, n=None):
  """Random structural operations that keep the node objects: reorder axes,
  slice, split and flatten edges, disconnect.  Returns what was done."""
  done = []
  for _ in range(ctx.integers(1, 4) if n is None else n):
    x = ctx.choice(nodes)
    if not x.edges:
      continue
    op = ctx.choice(["reorder", "slice", "split", "flatten", "flatten",
                     "disconnect"])
    e = ctx.choice(x.edges)
    d = e.dimension
    if op == "reorder":
      x.reorder_axes(ctx.perm(len(x.edges)))
    elif op == "slice":
      if not d:
        continue
      k = ctx.integers(1, d)
      tn.slice_edge(e, ctx.integers(0, d - k), k)
    elif op == "split":
      shapes = [(a, d // a) for a in range(1, (d or 0) + 1) if d % a == 0]
      if not shapes or any(len(y.edges) > 6 for y in e.get_nodes() if y):
        continue
      tn.split_edge(e, ctx.choice(shapes))
    elif op == "flatten":
      same = set(e.get_nodes())
      es = [f for f in tn.get_all_edges({x}) if set(f.get_nodes()) == same]
      if len(es) < 2:
        continue
      tn.flatten_edges(ctx.subset(es, ctx.integers(2, len(es))))
    else:
      if e.is_dangling():
        continue
      tn.disconnect(e)
    done.append((op, type(x).__name__))
  return done


def large(ctx):
  """Sizes beyond a handful: networks of many nodes, or nodes of many axes
  (so that numbers, names and symbols have two digits or letters)."""
  if ctx.flip():
    return dict(n=ctx.integers(9, 16), maxrank=4, dims=(1, 1, 2, 2),
                p_connect=0.93, maxopen=6, copy_nodes=0.15)
  return dict(n=ctx.integers(1, 3), maxrank=14, dims=(1, 1, 1, 2),
              maxopen=12, p_trace=0.3, copy_nodes=0.15)


def describe(nodes):
  ids = {}
  parts = []
  for nd in nodes:
    t = []
    for e in nd.edges:
      ids.setdefault(id(e), len(ids))
      t.append("%d:%d" % (ids[id(e)], nd.shape[e.axis1 if e.node1 is nd else
                                               e.axis2]))
    parts.append(("C" if isinstance(nd, tn.CopyNode) else "") + "(" +
                 ",".join(t) + ")")
  return "".join(parts)


def topo_sig(nodes):
  return describe(nodes)


# ------------------------------------------------------------------ structure
def check_structure(ctx, nodes, closed=True):
  """The structural invariant over public attributes of live nodes.

  `closed`: every edge's nodes have to be among `nodes`."""
  nodes = list(nodes)
  live = {id(n) for n in nodes}
  seen = {}
  for n in nodes:
    edges = n.edges
    shape = tuple(n.shape)
    tshape = tuple(to_np(n.tensor).shape)
    ctx.check(shape == tshape, "node %s: shape %s but tensor has %s", n.name,
              shape, tshape)
    ctx.check(len(edges) == len(shape) == n.get_rank(),
              "node %s: %d edges, rank %d, shape %s", n.name, len(edges),
              n.get_rank(), shape)
    ctx.check(len(n.axis_names) == len(shape), "node %s: axis names %s for "
              "shape %s", n.name, n.axis_names, shape)
    for k, e in enumerate(edges):
      seen.setdefault(id(e), (e, []))[1].append((n, k))
      ctx.check(not e.is_disabled, "node %s axis %d holds a disabled edge",
                n.name, k)
  for e, places in seen.values():
    recorded = [(e.node1, e.axis1)]
    if e.is_dangling():
      ctx.check(e.node2 is None and e.axis2 is None,
                "dangling edge %s records a second end", e.name)
    else:
      ctx.check(e.node2 is not None, "edge %s lost its second node", e.name)
      recorded.append((e.node2, e.axis2))
    ctx.check(all(isinstance(a, (int, np.integer)) for _, a in recorded),
              "edge %s has non-integer axes %s", e.name,
              [a for _, a in recorded])
    rec = sorted((id(n), int(a)) for n, a in recorded if id(n) in live)
    got = sorted((id(n), k) for n, k in places)
    ctx.check(rec == got, "edge %s records %s but is held at %s", e.name,
              [(n.name, a) for n, a in recorded],
              [(n.name, k) for n, k in places])
    if closed:
      ctx.check(len(rec) == len(recorded), "edge %s points to a node that is "
                "not in the network", e.name)
    dims = {int(n.shape[a]) for n, a in recorded}
    ctx.check(len(dims) == 1, "edge %s joins unequal dimensions %s", e.name,
              dims)
    ctx.check(int(e.dimension) in dims, "edge %s dimension %s, tensors say %s",
              e.name, e.dimension, dims)
    ctx.check(e.is_trace() == (len(recorded) == 2 and
                               recorded[0][0] is recorded[1][0]),
              "edge %s is_trace() is wrong", e.name)
    ctx.check(e.is_being_used(), "edge %s claims not to be used", e.name)
    gn = e.get_nodes()
    ctx.check(len(gn) == 2 and gn[0] is e.node1 and gn[1] is e.node2,
              "edge %s get_nodes() disagrees with node1/node2", e.name)
  ctx.obs("structures_checked")
  ctx.stats.obs("edges_checked", len(seen))


def check_queries(ctx, nodes):
  """Query functions against brute force over the structure."""
  nodes = list(nodes)
  for n in nodes:
    es = list(n.edges)
    ctx.check(list(n.get_all_edges()) == es, "get_all_edges of %s", n.name)
    dang = [e for e in es if e.node2 is None]
    nond = {e for e in es if e.node2 is not None}
    ctx.check(list(n.get_all_dangling()) == dang,
              "node.get_all_dangling of %s", n.name)
    ctx.check(set(n.get_all_nondangling()) == nond,
              "node.get_all_nondangling of %s", n.name)
    ctx.check(n.has_dangling_edge() == bool(dang), "has_dangling_edge")
    ctx.check(n.has_nondangling_edge() == bool(nond), "has_nondangling_edge")
    for k in range(len(es)):
      ctx.check(n[k] is es[k] and n.get_edge(k) is es[k],
                "node[%d] is not its edge", k)
      ctx.check(n.get_dimension(k) == n.shape[k], "get_dimension(%d)", k)
      nm = n.axis_names[k]
      if n.axis_names.count(nm) == 1:
        ctx.check(n.get_axis_number(nm) == k, "get_axis_number(%r)", nm)
        ctx.check(n[nm] is es[k], "node[%r] is not its edge", nm)
        ctx.check(n.get_dimension(nm) == n.shape[k], "get_dimension(%r)", nm)
    ctx.check(n[:] == es, "node[:]")
  for a in nodes:
    for b in nodes:
      if a is b:
        want = {e for e in a.edges if e.node1 is a and e.node2 is a}
      else:
        want = {e for e in a.edges if e in b.edges}
      got = tn.get_shared_edges(a, b)
      ctx.check(set(got) == want, "get_shared_edges(%s,%s): %d edges, "
                "expected %d", a.name, b.name, len(got), len(want))
      for e in list(want)[:1]:
        ctx.check(set(tn.get_parallel_edges(e)) == want,
                  "get_parallel_edges")
  ctx.check(set(tn.get_all_nondangling(nodes)) ==
            {e for n in nodes for e in n.edges if e.node2 is not None},
            "get_all_nondangling")
  got = list(tn.get_all_dangling(nodes))
  want = [e for n in nodes for e in n.edges if e.node2 is None]
  ctx.check(got == want, "get_all_dangling: wrong edges or order")
  ctx.check(set(tn.get_all_edges(nodes)) ==
            {e for n in nodes for e in n.edges}, "get_all_edges")
  ctx.obs("query_checks")


def fingerprint(nodes):
  """Everything observable about a network, for the atomicity monitor."""
  out = []
  for n in nodes:
    if n.is_disabled:
      out.append((id(n), "disabled"))
      continue
    t = to_np(n.tensor)
    es = []
    for e in n.edges:
      if e.is_disabled:
        es.append((id(e), "disabled"))
        continue
      es.append((id(e), e.name, id(e.node1), e.axis1,
                 id(e.node2) if e.node2 is not None else None, e.axis2,
                 e.is_dangling()))
    out.append((id(n), n.name, tuple(n.axis_names), tuple(n.shape), t.shape,
                str(t.dtype), t.tobytes(), tuple(es)))
  return out


# ------------------------------------------------------------ shadow machine
class Machine:
  """Runs public operations on a live network next to a shadow interpreter.

  The shadow holds, for every live node, the numpy array it has to equal with
  axes named by private tokens; `recs` maps live edge objects to the token(s)
  of the axes they have to sit on."""

  MAXSIZE = 6000

  def __init__(self, ctx, nodes):
    self.ctx = ctx
    self.nodes = list(nodes)
    self.shadow = {}
    self.recs = {}
    self.keep = list(nodes)
    self._tok = itertools.count()
    self.dead_edges = []
    self.dead_nodes = []
    for n in self.nodes:
      if (isinstance(n, tn.CopyNode) and
          tuple(n.shape) == (n.dimension,) * n.rank):
        arr = delta(n.rank, n.dimension, np.dtype(n.dtype))
      else:
        arr = to_np(n.tensor)
      self.shadow[id(n)] = (arr, [next(self._tok) for _ in arr.shape])
    for n in self.nodes:
      for k, e in enumerate(n.edges):
        tok = self.shadow[id(n)][1][k]
        if e.is_dangling():
          self.recs[e] = [tok, None]
        else:
          slot = 0 if (e.node1 is n and e.axis1 == k) else 1
          self.recs.setdefault(e, [None, None])[slot] = tok
    self.verify_all("initial network")

  # ------------------------------------------------------------ helpers
  def owner(self, tok):
    for n in self.nodes:
      if tok in self.shadow[id(n)][1]:
        return n
    raise AssertionError("token without owner")

  def arr(self, n):
    return self.shadow[id(n)][0]

  def toks(self, n):
    return self.shadow[id(n)][1]

  def edges(self):
    return list(self.recs)

  def dangling(self):
    return [e for e, r in self.recs.items() if r[1] is None]

  def traces(self):
    return [e for e, r in self.recs.items()
            if r[1] is not None and self.owner(r[0]) is self.owner(r[1])]

  def inner(self):
    return [e for e, r in self.recs.items()
            if r[1] is not None and self.owner(r[0]) is not self.owner(r[1])]

  def has_trace(self, n):
    return any(self.owner(self.recs[e][0]) is n for e in self.traces())

  def between(self, a, b):
    ta, tb = set(self.toks(a)), set(self.toks(b))
    res = []
    for e, r in self.recs.items():
      if r[1] is None:
        continue
      if (r[0] in ta and r[1] in tb) or (r[0] in tb and r[1] in ta):
        res.append(e)
    return res

  def edge_at(self, n, tok):
    for e, r in self.recs.items():
      if tok in r:
        return e
    raise AssertionError

  def verify(self, n, what):
    """Live node n equals its shadow; returns the axis tokens found."""
    ctx = self.ctx
    arr, toks = self.shadow[id(n)]
    edges = list(n.edges)
    ctx.check(len(edges) == len(toks), "%s: node %s has %d edges, expected %d",
              what, n.name, len(edges), len(toks))
    order = []
    swaps = []
    seen = set()
    for k, e in enumerate(edges):
      ctx.check(e in self.recs, "%s: axis %d of %s carries an edge that should "
                "not be there (%s)", what, k, n.name, e.name)
      a, b = self.recs[e]
      if b is None:
        ctx.check(e.is_dangling(), "%s: edge %s should dangle", what, e.name)
        tok = a
      elif a in toks and b in toks:
        if e not in seen:
          seen.add(e)
          swaps.append(e)
        tok = a if (e.node1 is n and e.axis1 == k) else b
      else:
        tok = a if a in toks else b
      ctx.check(tok in toks, "%s: edge %s does not belong to node %s", what,
                e.name, n.name)
      order.append(tok)
    ctx.check(sorted(order) == sorted(toks), "%s: node %s holds axes %s, "
              "expected %s", what, n.name, order, toks)
    got = to_np(n.tensor)
    last = None
    for flips in itertools.product((False, True), repeat=len(swaps)):
      o = list(order)
      for e, f in zip(swaps, flips):
        if f:
          a, b = self.recs[e]
          o = [b if t == a else a if t == b else t for t in o]
      want = np.transpose(arr, [toks.index(t) for t in o]) if o else arr
      try:
        ctx.close(got, want, "%s: tensor of node %s" % (what, n.name))
      except Exception as exc:  # try the other side assignment of a trace edge
        last = last or exc
        continue
      for e, f in zip(swaps, flips):
        if f:
          self.recs[e] = self.recs[e][::-1]
      ctx.obs("tensors_compared")
      return o
    raise last

  def verify_all(self, what):
    for n in self.nodes:
      self.verify(n, what)

  def _retire(self, olds, new, arr, toks, gone_edges, what, keepalive=True):
    for o in olds:
      self.nodes.remove(o)
      del self.shadow[id(o)]
      self.dead_nodes.append(o)
    for e in gone_edges:
      del self.recs[e]
      self.dead_edges.append(e)
    self.nodes.append(new)
    self.keep.append(new)
    self.shadow[id(new)] = (arr, list(toks))
    self.verify_all(what)

  def order_is(self, n, edges, what):
    self.ctx.check([id(e) for e in n.edges] == [id(e) for e in edges],
                   "%s: edge order is %s, expected %s", what,
                   [e.name for e in n.edges], [e.name for e in edges])

  def connectable(self):
    d = self.dangling()
    return [(a, b) for a in d for b in d if a is not b and
            a.dimension == b.dimension]

  # ------------------------------------------------------------ operations
  def op_connect(self):
    pairs = self.connectable()
    if not pairs:
      return False
    a, b = self.ctx.choice(pairs)
    ta, tb = self.recs[a][0], self.recs[b][0]
    na, ka = a.node1, a.axis1
    style = self.ctx.integers(0, 2)
    if style == 0:
      e = a ^ b
    elif style == 1:
      e = tn.connect(a, b)
    else:
      e = tn.connect(a, b, name="conn")
      self.ctx.check(e.name == "conn", "connect ignored the edge name")
    del self.recs[a], self.recs[b]
    if e.node1 is na and e.axis1 == ka:
      self.recs[e] = [ta, tb]
    else:
      self.recs[e] = [tb, ta]
    self.verify_all("connect")
    return True

  def op_disconnect(self):
    es = self.inner() + self.traces()
    if not es:
      return False
    e = self.ctx.choice(es)
    r = self.recs[e]
    n1, a1, n2, a2 = e.node1, e.axis1, e.node2, e.axis2
    t1, t2 = r
    if n1 is not n2 and self.owner(t1) is not n1:
      t1, t2 = t2, t1
    style = self.ctx.integers(0, 3)
    if style == 0:
      x, y = tn.disconnect(e)
    elif style == 1:
      x, y = e.disconnect()
    elif style == 2:
      x, y = e | e
    else:
      x, y = tn.disconnect(e, "left", "right")
      self.ctx.eq((x.name, y.name), ("left", "right"), "disconnect names")
    self.ctx.check(x.node1 is n1 and x.axis1 == a1 and y.node1 is n2 and
                   y.axis1 == a2, "disconnect: new edges at wrong places")
    del self.recs[e]
    self.recs[x] = [t1, None]
    self.recs[y] = [t2, None]
    self.verify_all("disconnect")
    return True

  def _names(self, rank):
    return ["ax%d" % i for i in range(rank)]

  def op_contract(self):
    es = self.inner()
    if not es:
      return False
    e = self.ctx.choice(es)
    t1, t2 = self.recs[e]
    n1, n2 = self.owner(t1), self.owner(t2)
    k1, k2 = self.toks(n1), self.toks(n2)
    lab = lambda ts: ["c" if t in (t1, t2) else t for t in ts]
    out = [t for t in k1 + k2 if t not in (t1, t2)]
    if self.ctx.flip(0.3):
      names = self._names(len(out))
      arr = esum([self.arr(n1), self.arr(n2)], [lab(k1), lab(k2)], out)
      if arr.size > self.MAXSIZE:
        return False
      new = tn.contract(e, name="cn", axis_names=names)
      self.ctx.eq(new.name, "cn", "contract name")
      self.ctx.eq(list(new.axis_names), names, "contract axis names")
    else:
      arr = esum([self.arr(n1), self.arr(n2)], [lab(k1), lab(k2)], out)
      if arr.size > self.MAXSIZE:
        return False
      new = tn.contract(e)
    self._retire([n1, n2], new, arr, out, [e], "contract")
    return True

  def op_contract_trace(self):
    es = self.traces()
    if not es:
      return False
    e = self.ctx.choice(es)
    t1, t2 = self.recs[e]
    n = self.owner(t1)
    ks = self.toks(n)
    out = [t for t in ks if t not in (t1, t2)]
    arr = esum([self.arr(n)], [["c" if t in (t1, t2) else t for t in ks]], out)
    name = self.ctx.choice([None, "tr"])
    order = [x for x in n.edges if x is not e]
    new = tn.contract(e, name=name)
    if name:
      self.ctx.eq(new.name, "tr", "contract name")
    self.order_is(new, order, "trace contraction")
    self._retire([n], new, arr, out, [e], "contract trace edge")
    return True

  def op_contract_all_traces(self):
    es = self.traces()
    if not es:
      return False
    n = self.owner(self.recs[self.ctx.choice(es)][0])
    mine = self.between(n, n)
    num = {}
    for i, e in enumerate(mine):
      for t in self.recs[e]:
        num[t] = "c%d" % i
    ks = self.toks(n)
    out = [t for t in ks if t not in num]
    arr = esum([self.arr(n)], [[num.get(t, t) for t in ks]], out)
    order = [x for x in n.edges if x not in mine]
    style = self.ctx.integers(0, 3)
    if style == 0:
      new = tn.contract_parallel(mine[0])
    elif style == 1:
      new = tn.contract_trace_edges(n)
    elif style == 2:
      new = n @ n
    else:
      self.ctx.py.shuffle(order)
      names = self._names(len(order))
      new = tn.contract_between(n, n, name="t", output_edge_order=order,
                                axis_names=names)
      self.ctx.eq(list(new.axis_names), names, "axis names")
    self.order_is(new, order, "contracting all trace edges")
    # flattening happens inside: the node's own edges are gone
    self._retire([n], new, arr, out, mine, "contract all trace edges")
    return True

  def op_contract_between(self):
    es = self.inner()
    if not es:
      return False
    e = self.ctx.choice(es)
    n1, n2 = self.owner(self.recs[e][0]), self.owner(self.recs[e][1])
    if self.ctx.flip():
      n1, n2 = n2, n1
    shared = self.between(n1, n2)
    num = {}
    for i, x in enumerate(shared):
      for t in self.recs[x]:
        num[t] = "c%d" % i
    k1, k2 = self.toks(n1), self.toks(n2)
    out = [t for t in k1 + k2 if t not in num]
    arr = esum([self.arr(n1), self.arr(n2)],
               [[num.get(t, t) for t in k] for k in (k1, k2)], out)
    if arr.size > self.MAXSIZE:
      return False
    default = [x for x in list(n1.edges) + list(n2.edges) if x not in shared]
    has_trace = len(set(default)) != len(default)
    style = self.ctx.integers(0, 5)
    if style in (0, 1) or has_trace and style > 3:
      new = n1 @ n2 if style == 0 else tn.contract_between(n1, n2)
      want = default
    elif style == 2:
      new = tn.contract_parallel(self.ctx.choice(shared))
      want = None
    elif style == 3:
      names = self._names(len(default))
      new = tn.contract_between(n1, n2, name="nm", axis_names=names,
                                allow_outer_product=self.ctx.flip())
      self.ctx.eq(new.name, "nm", "contract_between name")
      self.ctx.eq(list(new.axis_names), names, "contract_between axis names")
      want = default
    else:
      want = self.ctx.shuffled(default)
      names = self._names(len(want)) if self.ctx.flip() else None
      seq = tuple(want) if self.ctx.flip(0.3) else list(want)
      new = tn.contract_between(n1, n2, output_edge_order=seq,
                                axis_names=names)
      if names:
        self.ctx.eq(list(new.axis_names), names, "axis names in output order")
      self.ctx.obs("requested_orders")
    if want is not None:
      self.order_is(new, want, "contract_between")
    self._retire([n1, n2], new, arr, out, shared, "contract_between")
    return True

  def op_outer(self):
    if len(self.nodes) < 2:
      return False
    n1, n2 = self.ctx.subset(self.nodes, 2)
    if self.arr(n1).size * self.arr(n2).size > 500 or \
        self.arr(n1).ndim + self.arr(n2).ndim > 8:
      return False
    k1, k2 = self.toks(n1), self.toks(n2)
    arr = np.multiply.outer(self.arr(n1), self.arr(n2))
    want = list(n1.edges) + list(n2.edges)
    shared = self.between(n1, n2)
    style = self.ctx.integers(0, 2)
    if style == 0 or shared:
      names = self._names(len(want))
      new = tn.outer_product(n1, n2, name="op", axis_names=names)
      self.ctx.eq(list(new.axis_names), names, "outer_product axis names")
    elif style == 1:
      new = tn.contract_between(n1, n2, allow_outer_product=True)
    else:
      if len(set(want)) == len(want):
        want = self.ctx.shuffled(want)
        new = tn.contract_between(n1, n2, allow_outer_product=True,
                                  output_edge_order=want)
      else:
        new = tn.outer_product(n1, n2)
    self.order_is(new, want, "outer product")
    self._retire([n1, n2], new, arr, k1 + k2, [], "outer product")
    return True

  def op_outer_final(self):
    if self.inner() or self.traces() or len(self.nodes) < 2:
      return False
    total = 1
    for n in self.nodes:
      total *= self.arr(n).size
    want = self.ctx.shuffled(self.dangling())
    if total > 2000 or len(want) > 8:
      return False
    nodes = list(self.nodes)
    arr, ks = self.arr(nodes[0]), list(self.toks(nodes[0]))
    for n in nodes[1:]:
      arr = np.multiply.outer(arr, self.arr(n))
      ks += self.toks(n)
    new = tn.outer_product_final_nodes(nodes, want)
    self.order_is(new, want, "outer_product_final_nodes")
    self._retire(nodes, new, arr, ks, [], "outer_product_final_nodes")
    return True

  def op_copy_node(self):
    cands = []
    for n in self.nodes:
      if not isinstance(n, tn.CopyNode):
        continue
      es = [self.edge_at(n, t) for t in self.toks(n)]
      if any(self.recs[e][1] is None for e in es):
        continue
      if all(e in self.traces() for e in es):
        continue
      cands.append(n)
    if not cands:
      return False
    c = self.ctx.choice(cands)
    if self.arr(c).shape != (c.dimension,) * c.rank:
      return False
    es = list(dict.fromkeys(self.edge_at(c, t) for t in self.toks(c)))
    partners = []
    for e in es:
      for t in self.recs[e]:
        o = self.owner(t)
        if o is not c and o not in partners:
          partners.append(o)
    num = {}
    for i, e in enumerate(es):
      for t in self.recs[e]:
        num[t] = "c%d" % i
    allk = [self.toks(p) for p in partners]
    out = [t for k in allk for t in k if t not in num]
    size = 1
    for t in out:
      p = self.owner(t)
      size *= self.arr(p).shape[self.toks(p).index(t)]
    if size > self.MAXSIZE or len(out) > 12:
      return False
    arr = esum([self.arr(c)] + [self.arr(p) for p in partners],
               [[num.get(t, t) for t in k] for k in [self.toks(c)] + allk], out)
    new = tn.contract_copy_node(c, name="cc")
    self.ctx.obs("copy_nodes_contracted")
    self._retire([c] + partners, new, arr, out, es, "contract_copy_node")
    return True

  def _merge(self, new_edge, edges, what):
    """Shadow of flattening `edges` (in this order) into `new_edge`."""
    sides = [self.recs[e] for e in edges]
    for e in edges:
      del self.recs[e]
      self.dead_edges.append(e)
    n = self.owner(sides[0][0])
    if sides[0][1] is not None and self.owner(sides[0][1]) is n:
      # trace edges: which end goes to which group is the library's choice
      cands = list(itertools.product((0, 1), repeat=len(sides)))
      arr0, toks0 = self.shadow[id(n)]
      self.nodes, saved = self.nodes, list(self.nodes)
      err = None
      for flips in cands:
        g1 = [s[f] for s, f in zip(sides, flips)]
        g2 = [s[1 - f] for s, f in zip(sides, flips)]
        self.shadow[id(n)] = (arr0, list(toks0))
        a = self._fuse(n, g1)
        b = self._fuse(n, g2)
        self.recs[new_edge] = [a, b]
        try:
          self.verify(n, what)
          return
        except Exception as exc:
          err = err or exc
      raise err
    groups = []
    n1 = new_edge.node1
    first = [s[0] if self.owner(s[0]) is n1 else s[1] for s in sides]
    groups.append(first)
    self.ctx.check(all(t is not None and self.owner(t) is n1 for t in first),
                   "%s: flattened edge is on the wrong node", what)
    rec = [self._fuse(n1, first), None]
    if sides[0][1] is not None:
      n2 = new_edge.node2
      second = [s[1] if f == s[0] else s[0] for s, f in zip(sides, first)]
      self.ctx.check(all(self.owner(t) is n2 for t in second),
                     "%s: flattened edge ends on the wrong node", what)
      rec[1] = self._fuse(n2, second)
    self.recs[new_edge] = rec

  def _fuse(self, n, toks):
    arr, ks = self.shadow[id(n)]
    rest = [t for t in ks if t not in toks]
    perm = [ks.index(t) for t in rest + list(toks)]
    arr = np.transpose(arr, perm)
    dim = int(np.prod(arr.shape[len(rest):], dtype=int))
    arr = arr.reshape(arr.shape[:len(rest)] + (dim,))
    t = next(self._tok)
    self.shadow[id(n)] = (arr, rest + [t])
    return t

  def op_flatten(self):
    groups = {}
    for e, r in self.recs.items():
      if r[1] is None:
        key = (id(self.owner(r[0])),)
      else:
        key = tuple(sorted((id(self.owner(r[0])), id(self.owner(r[1])))))
      groups.setdefault(key, []).append(e)
    groups = [g for g in groups.values() if len(g) >= 2]
    if not groups:
      return False
    g = self.ctx.choice(groups)
    es = self.ctx.subset(g, self.ctx.integers(2, len(g)))
    name = self.ctx.choice([None, "flat"])
    new = tn.flatten_edges(es, name) if name else tn.flatten_edges(list(es))
    if name:
      self.ctx.eq(new.name, "flat", "flatten_edges name")
    self._merge(new, es, "flatten_edges")
    self.verify_all("flatten_edges")
    self.ctx.obs("flattened")
    return True

  def op_flatten_between(self):
    es = self.inner()
    if not es:
      return False
    e = self.ctx.choice(es)
    n1, n2 = self.owner(self.recs[e][0]), self.owner(self.recs[e][1])
    shared = self.between(n1, n2)
    if len(shared) > 4:
      return False
    new = tn.flatten_edges_between(n1, n2)
    if len(shared) == 1:
      self.ctx.check(new is shared[0], "flatten_edges_between replaced the "
                     "only edge")
    else:
      self._merge_any_order(new, shared, "flatten_edges_between")
    self.verify_all("flatten_edges_between")
    return True

  def _merge_any_order(self, new, shared, what):
    """The order in which a set of edges is merged is unspecified, but both
    ends have to use the same one."""
    saved = dict(self.recs), dict(self.shadow), list(self.dead_edges)
    err = None
    for perm in itertools.permutations(shared):
      self.recs, self.shadow, self.dead_edges = (dict(saved[0]),
                                                 dict(saved[1]),
                                                 list(saved[2]))
      try:
        self._merge(new, list(perm), what)
        for n in {id(x): x for x in (new.node1, new.node2)}.values():
          self.verify(n, what)
        return
      except Exception as exc:
        err = err or exc
    raise err

  def op_flatten_all(self):
    pairs = {}
    for e in self.inner() + self.traces():
      r = self.recs[e]
      key = tuple(sorted((id(self.owner(r[0])), id(self.owner(r[1])))))
      pairs.setdefault(key, []).append(e)
    if not pairs or any(len(v) > 3 for v in pairs.values()):
      return False
    # joint permutation ambiguity: only flatten when one pair is ambiguous
    multi = [v for v in pairs.values() if len(v) > 1]
    if len(multi) > 1:
      return False
    res = tn.flatten_all_edges(self.nodes)
    self.ctx.check(len(res) == len(pairs), "flatten_all_edges returned %d "
                   "edges for %d node pairs", len(res), len(pairs))
    if multi:
      new = [e for e in res if e not in self.recs]
      self.ctx.check(len(new) == 1, "flatten_all_edges: %d new edges",
                     len(new))
      self._merge_any_order(new[0], multi[0], "flatten_all_edges")
    self.verify_all("flatten_all_edges")
    return True

  def op_split_edge(self):
    es = self.edges()
    if not es:
      return False
    e = self.ctx.choice(es)
    rank = max(self.arr(self.owner(t)).ndim for t in self.recs[e]
               if t is not None)
    if rank > 7:
      return False
    d = int(e.dimension)
    opts = [(1, d), (d, 1)]
    for a in range(2, d):
      if d % a == 0:
        opts.append((a, d // a))
        opts.append((a, 1, d // a))
    if d == 12:
      opts.append((2, 3, 2))
    if d == 8:
      opts.append((2, 2, 2))
    shape = self.ctx.choice(opts)
    names = None
    if self.ctx.flip(0.4):
      self._k = getattr(self, "_k", 0) + 1
      names = ["s%d_%d" % (self._k, i) for i in range(len(shape))]
    rec = self.recs[e]
    n1 = e.node1
    nodes = [self.owner(t) for t in rec if t is not None]
    trace = len(nodes) == 2 and nodes[0] is nodes[1]
    axn = {id(x): {y: x.axis_names[k] for k, y in enumerate(x.edges)
                   if y is not e} for x in nodes}
    new = tn.split_edge(e, shape, names) if names else tn.split_edge(e, shape)
    for x in nodes:
      if not any(y in self.traces() for y in axn[id(x)]):
        for y, nm in axn[id(x)].items():
          self.ctx.eq(x.axis_names[x.edges.index(y)], nm,
                      "split_edge renamed another axis")
    self.ctx.check(len(new) == len(shape), "split_edge returned %d edges",
                   len(new))
    if names:
      self.ctx.eq([x.name for x in new], names, "split_edge names")
    for x, d2 in zip(new, shape):
      self.ctx.check(int(x.dimension) == d2, "split_edge: edge of dimension "
                     "%s, expected %s", x.dimension, d2)
    del self.recs[e]
    self.dead_edges.append(e)
    pieces = []
    for t in rec:
      if t is None:
        pieces.append([None] * len(shape))
        continue
      n = self.owner(t)
      arr, ks = self.shadow[id(n)]
      k = ks.index(t)
      arr = arr.reshape(arr.shape[:k] + tuple(shape) + arr.shape[k + 1:])
      ts = [next(self._tok) for _ in shape]
      self.shadow[id(n)] = (arr, ks[:k] + ts + ks[k + 1:])
      pieces.append(ts)
    for i, x in enumerate(new):
      self.recs[x] = [pieces[0][i], pieces[1][i]]
    self.verify_all("split_edge")
    self.ctx.obs("split")
    return True

  def op_slice(self):
    es = [e for e in self.edges() if e.dimension >= 2]
    if not es:
      return False
    e = self.ctx.choice(es)
    d = int(e.dimension)
    length = self.ctx.integers(1, d)
    start = self.ctx.integers(0, d - length)
    res = tn.slice_edge(e, start, length)
    self.ctx.check(res is e, "slice_edge returned another edge")
    for t in self.recs[e]:
      if t is None:
        continue
      n = self.owner(t)
      arr, ks = self.shadow[id(n)]
      self.shadow[id(n)] = (np.take(arr, np.arange(start, start + length),
                                    axis=ks.index(t)), ks)
    self.verify_all("slice_edge")
    self.ctx.obs("sliced")
    return True

  def op_reorder_edges(self):
    ns = [n for n in self.nodes if self.arr(n).ndim >= 2 and
          not self.has_trace(n) and self._has_tensor(n)]
    if not ns:
      return False
    n = self.ctx.choice(ns)
    want = self.ctx.shuffled(n.edges)
    names = {id(e): nm for e, nm in zip(n.edges, n.axis_names)}
    res = n.reorder_edges(want)
    self.ctx.check(res is n, "reorder_edges returned another node")
    self.order_is(n, want, "reorder_edges")
    self.ctx.eq(list(n.axis_names), [names[id(e)] for e in want],
                "axis names after reorder_edges")
    self.verify_all("reorder_edges")
    return True

  def _has_tensor(self, n):
    _ = n.tensor  # copy nodes build theirs lazily
    return True

  def op_reorder_axes(self):
    ns = [n for n in self.nodes if self.arr(n).ndim >= 2 and
          self._has_tensor(n)]
    if not ns:
      return False
    n = self.ctx.choice(ns)
    perm = self.ctx.perm(self.arr(n).ndim)
    want = [n.edges[p] for p in perm]
    names = [n.axis_names[p] for p in perm]
    n.reorder_axes(perm)
    self.order_is(n, want, "reorder_axes")
    self.ctx.eq(list(n.axis_names), names, "axis names after reorder_axes")
    self.verify_all("reorder_axes")
    return True

  def op_remove_node(self):
    if len(self.nodes) < 2:
      return False
    n = self.ctx.choice(self.nodes)
    info = []
    for k, e in enumerate(list(n.edges)):
      info.append((k, n.axis_names[k], e, self.recs[e]))
    by_name, by_axis = tn.remove_node(n)
    toks = set(self.toks(n))
    want_axes = []
    for k, nm, e, r in info:
      if r[1] is None or (r[0] in toks and r[1] in toks):
        continue
      want_axes.append(k)
      mine, other = (r[0], r[1]) if r[0] in toks else (r[1], r[0])
      self.ctx.check(k in by_axis, "remove_node: axis %d missing", k)
      x = by_axis[k]
      self.ctx.check(by_name.get(nm) is x, "remove_node: edge of axis %r "
                     "differs between the two maps", nm)
      o = self.owner(other)
      self.ctx.check(x.node1 is o and x.is_dangling(), "remove_node: broken "
                     "edge of axis %d is not the neighbour's", k)
      del self.recs[e]
      self.recs[x] = [other, None]
      self.recs[n.edges[k]] = [mine, None]
    self.ctx.check(sorted(by_axis) == sorted(want_axes) and
                   len(by_name) == len(want_axes),
                   "remove_node reported axes %s, expected %s",
                   sorted(by_axis), want_axes)
    self.verify_all("remove_node")
    if self.ctx.flip(0.3):
      for t in self.toks(n):
        for e, r in list(self.recs.items()):
          if t in r:
            del self.recs[e]
      self.nodes.remove(n)
      del self.shadow[id(n)]
    return True

  OPS = {
      "connect": 2, "disconnect": 1, "contract": 3, "contract_trace": 3,
      "contract_all_traces": 2, "contract_between": 4, "outer": 2,
      "outer_final": 2, "copy_node": 4, "flatten": 3, "flatten_between": 2,
      "flatten_all": 1, "split_edge": 3, "slice": 1.5, "reorder_edges": 2,
      "reorder_axes": 2, "remove_node": 0.6,
  }

  def step(self):
    names = list(self.OPS)
    w = np.array([self.OPS[k] for k in names], dtype=float)
    for k in self.ctx.rng.choice(len(names), size=len(names), replace=False,
                                 p=w / w.sum()):
      name = names[int(k)]
      if getattr(self, "op_" + name)():
        self.ctx.note(name, describe(self.nodes))
        self.ctx.sig(name)
        self.ctx.stats.obs("op_" + name)
        return name
    return None
