"""C13: symmetric networks evaluate to their dense images through the whole
node layer."""
import itertools

import numpy as np
import tensornetwork as tn
import tensornetwork.block_sparse as bs
from tensornetwork import contractors
from tensornetwork.linalg import node_linalg

from tnv import core, nets, sym
from tnv.dense import Frozen, esum, network_value, to_np

EXCS = (ValueError, TypeError, AttributeError, NotImplementedError)


def signed(g, q, f):
  return sym.reduce_mod(g, -q if f else q)


def gen(ctx, n=None, maxrank=4, maxopen=5, dims=(1, 2, 2, 3), p_trace=0.15,
        dtype=None):
  """(group, symmetric nodes) with every joined pair of legs dual."""
  g = sym.group(ctx, 2)
  dtype = dtype or ctx.choice([np.float64, np.complex128])
  n = n or ctx.integers(1, 4)
  legs = [[None] * ctx.integers(1, maxrank) for _ in range(n)]
  slots = ctx.shuffled([(i, k) for i in range(n) for k in range(len(legs[i]))])
  pairs, nopen = [], 0
  new = lambda: (sym.rand_q(ctx, g, ctx.choice(dims), 1), ctx.flip())
  while slots:
    i, k = slots.pop()
    cands = [j for j, (a, _) in enumerate(slots) if a != i or ctx.flip(p_trace)]
    if cands and (nopen >= maxopen or ctx.flip(0.75)):
      j, l = slots.pop(ctx.choice(cands))
      q, f = new()
      legs[i][k], legs[j][l] = (q, f), (q, not f)
      pairs.append(((i, k), (j, l)))
    else:
      legs[i][k] = new()
      nopen += 1
  nodes = []
  for i in range(n):
    t, m = sym.make(ctx, g, legs[i], [1] * len(legs[i]), dtype)
    p = ctx.perm(len(legs[i]))
    if ctx.flip(0.4):
      # lazily permuted storage
      t2, _ = sym.make(ctx, g, [legs[i][a] for a in p], [1] * len(p), dtype,
                       np.transpose(m.dense, p))
      t = t2.transpose(list(np.argsort(p)), shuffle=ctx.flip(0.3))
    names = (["n%d_%s" % (i, c) for c in "abcdef"[:len(p)]]
             if ctx.flip(0.4) else None)
    nodes.append(tn.Node(t, name="node%d" % i, axis_names=names,
                         backend="symmetric"))
  for (i, k), (j, l) in pairs:
    if ctx.flip():
      nodes[i][k] ^ nodes[j][l]
    else:
      tn.connect(nodes[i][k], nodes[j][l])
  ctx.sig([str(x) for x in g], nets.topo_sig(nodes), np.dtype(dtype).char)
  return g, nodes


def conserved(ctx, g, t, what):
  """t only has entries where its own charges add up to zero."""
  if t.ndim == 0:
    return
  legs = [(np.asarray(c.charges).astype(np.int64), bool(f))
          for cs, fs in zip(t.charges, t.flows) for c, f in zip(cs, fs)]
  d = np.asarray(t.todense()).reshape([len(q) for q, _ in legs])
  ctx.check(not np.any(d[~sym.mask(g, legs)]), "%s: not charge conserving",
            what)
  ctx.eq(tuple(int(x) for x in t.shape),
         tuple(int(np.prod([c.dim for c in cs])) for cs in t.charges),
         what + ": shape against charges")


class SymMachine(nets.Machine):
  """The shadow interpreter with the charges of every axis tracked."""
  MAXSIZE = 3000

  def __init__(self, ctx, g, nodes):
    self.g = g
    self.tokq = {}
    super().__init__(ctx, nodes)

  def verify(self, n, what, retry=True):
    order = super().verify(n, what)
    t = n.tensor
    if not order:
      return order
    conserved(self.ctx, self.g, t, what)
    for ax, tok in enumerate(order):
      if tok not in self.tokq:
        self.tokq[tok] = [signed(self.g, np.asarray(c.charges).astype(np.int64),
                                 bool(f))
                          for c, f in zip(t.charges[ax], t.flows[ax])]
      want = self.tokq[tok]
      got = [signed(self.g, np.asarray(c.charges).astype(np.int64), bool(f))
             for c, f in zip(t.charges[ax], t.flows[ax])]
      same = len(got) == len(want) and all(
          np.array_equal(a, b) for a, b in zip(got, want))
      if not same and retry:
        # the two ends of a trace edge can be indistinguishable by value
        loops = [e for e in n.edges if e in self.recs and
                 self.recs[e][1] is not None and
                 self.owner(self.recs[e][0]) is self.owner(self.recs[e][1])]
        saved = dict(self.recs)
        for flips in itertools.product((False, True), repeat=len(set(loops))):
          self.recs = dict(saved)
          for e, f in zip(dict.fromkeys(loops), flips):
            if f:
              self.recs[e] = saved[e][::-1]
          try:
            return self.verify(n, what, False)
          except core.Violation:
            pass
        self.recs = saved
      self.ctx.check(same, "%s: axis %d of %s carries charges %s, expected %s",
                     what, ax, n.name, [q.tolist() for q in got],
                     [q.tolist() for q in want])
    self.ctx.obs("charges_tracked", len(order))
    return order

  def _fuse(self, n, toks):
    t = super()._fuse(n, toks)
    self.tokq[t] = [q for x in toks for q in self.tokq[x]]
    return t

  def _q(self, e):
    r = self.recs[e]
    return self.tokq[r[0]]

  def connectable(self):
    out = []
    for a, b in super().connectable():
      qa, qb = self._q(a), self._q(b)
      if len(qa) == len(qb) and all(
          x.shape == y.shape and np.array_equal(x, sym.reduce_mod(self.g, -y))
          for x, y in zip(qa, qb)) and self._flows_dual(a, b):
        out.append((a, b))
    return out

  def _flows_dual(self, a, b):
    fa = a.node1.tensor.flows[a.axis1]
    fb = b.node1.tensor.flows[b.axis1]
    return all(bool(x) != bool(y) for x, y in zip(fa, fb))

  def op_split_edge(self):
    es = [e for e in self.edges() if len(self._q(e)) > 1]
    if not es:
      return False
    e = self.ctx.choice(es)
    rec = self.recs[e]
    qs = self._q(e)
    part = sym.rand_part(self.ctx, len(qs))
    ends = list(itertools.accumulate(part))
    groups = [qs[b - a:b] for a, b in zip(part, ends)]
    shape = [int(np.prod([len(q) for q in gr])) for gr in groups]
    if 1 in [len(q) for q in qs] and len(shape) != len(qs):
      return False  # sizes do not identify the grouping
    new = tn.split_edge(e, tuple(shape))
    self.ctx.eq([int(x.dimension) for x in new], shape, "split dimensions")
    del self.recs[e]
    self.dead_edges.append(e)
    pieces = []
    for i, t in enumerate(rec):
      if t is None:
        pieces.append([None] * len(shape))
        continue
      n = self.owner(t)
      arr, ks = self.shadow[id(n)]
      k = ks.index(t)
      arr = arr.reshape(arr.shape[:k] + tuple(shape) + arr.shape[k + 1:])
      ts = [next(self._tok) for _ in shape]
      for x, gr in zip(ts, groups):
        self.tokq[x] = gr if i == 0 else [sym.reduce_mod(self.g, -q)
                                          for q in gr]
      self.shadow[id(n)] = (arr, ks[:k] + ts + ks[k + 1:])
      pieces.append(ts)
    for i, x in enumerate(new):
      self.recs[x] = [pieces[0][i], pieces[1][i]]
    self.verify_all("split_edge")
    self.ctx.obs("split")
    return True

  def op_split_node(self):
    ns = [n for n in self.nodes if self.arr(n).ndim >= 2 and
          not self.has_trace(n)]
    if not ns:
      return False
    n = self.ctx.choice(ns)
    es = self.ctx.shuffled(n.edges)
    k = self.ctx.integers(1, len(es) - 1)
    left, right = es[:k], es[k:]
    arr, toks = self.shadow[id(n)]
    which = self.ctx.choice(["svd", "full", "qr", "rq"])
    etok = {}
    for e in es:
      for t in self.recs[e]:
        if t in toks:
          etok[e] = t
    if which == "svd":
      l, r, tr = tn.split_node(n, left, right)
      parts = [l, r]
      self.ctx.eq(int(np.asarray(tr.data if hasattr(tr, "data") else tr).size),
                  0, "untruncated split discards")
    elif which == "full":
      l, s, r, _ = tn.split_node_full_svd(n, left, right)
      parts = [l, s, r]
    elif which == "qr":
      l, r = tn.split_node_qr(n, left, right)
      parts = [l, r]
    else:
      l, r = tn.split_node_rq(n, left, right)
      parts = [l, r]
    bonds = list(zip(parts[:-1], parts[1:]))
    new_edges = []
    for a, b in bonds:
      sh = [e for e in a.edges if e in b.edges and e not in self.recs]
      self.ctx.eq(len(sh), 1, "new bond of a split")
      new_edges.append(sh[0])
    self.order_is(l, left + new_edges[:1], "left node of a split")
    self.order_is(r, new_edges[-1:] + right, "right node of a split")
    labels = []
    for p in parts:
      labels.append([("b", id(e)) if e in new_edges else etok[e]
                     for e in p.edges])
    got = esum([to_np(p.tensor) for p in parts], labels, toks)
    self.ctx.close(got, arr, "product of the split")
    del self.shadow[id(n)]
    self.nodes.remove(n)
    self.dead_nodes.append(n)
    toknew = {}
    for p, lab in zip(parts, labels):
      ks = []
      for x in lab:
        if isinstance(x, tuple):
          t = next(self._tok)
          toknew.setdefault(x, []).append(t)
          x = t
        ks.append(x)
      self.nodes.append(p)
      self.keep.append(p)
      self.shadow[id(p)] = (to_np(p.tensor), ks)
    for e in new_edges:
      a, b = toknew[("b", id(e))]
      first = e.node1
      self.recs[e] = [a, b] if a in self.toks(first) else [b, a]
    self.verify_all("split_node")
    for e in new_edges:
      a, b = (self.tokq[t] for t in self.recs[e])
      self.ctx.check(len(a) == len(b) == 1 and np.array_equal(
          a[0], sym.reduce_mod(self.g, -b[0])), "the new bond is not dual")
    self.ctx.obs("node_splits")
    self.ctx.obs("split_" + which)
    return True

  OPS = {
      "connect": 2, "disconnect": 1, "contract": 3, "contract_trace": 3,
      "contract_all_traces": 2, "contract_between": 4, "outer": 2,
      "outer_final": 1, "flatten": 3, "flatten_between": 2, "flatten_all": 1,
      "split_edge": 3, "reorder_edges": 2, "reorder_axes": 2,
      "remove_node": 0.5, "split_node": 3,
  }


def case_programs(ctx):
  g, nodes = gen(ctx)
  ctx.note(g, nets.describe(nodes))
  m = SymMachine(ctx, g, nodes)
  for _ in range(ctx.integers(2, 8)):
    try:
      if m.step() is None:
        break
    except ValueError as e:
      if "reshaping empty arrays" in str(e) and any(
          0 in n.shape for n in m.nodes):
        raise core.Inconclusive("documented: empty tensors are not reshaped")
      raise
    nets.check_structure(ctx, m.nodes, closed=False)
  ctx.obs("programs")


def _dangling(nodes):
  return [e for n in nodes for e in n.edges if e.is_dangling()]


def case_contractors(ctx):
  g, nodes = gen(ctx, n=ctx.integers(1, 5), maxopen=4, maxrank=3)
  out = ctx.shuffled(_dangling(nodes))
  if int(np.prod([e.dimension for e in out], dtype=int)) > 600:
    raise core.Inconclusive("large result")
  want = network_value(nodes, out)
  fr = Frozen(**{"t%d" % i: n.tensor for i, n in enumerate(nodes)})
  wantq = [sym.reduce_mod(g, sym.axis_q(e.node1.tensor, e.axis1)) for e in out]
  name = ctx.choice(["optimal", "branch", "greedy", "auto", "custom",
                     "pairs", "at"])
  kw = {} if len(out) <= 1 and ctx.flip() else {"output_edge_order": out}
  ctx.note(name, nets.describe(nodes), len(out), bool(kw))
  if name in ("optimal", "greedy", "auto"):
    res = getattr(contractors, name)(nodes, **kw)
  elif name == "branch":
    res = contractors.branch(nodes, nbranch=ctx.choice([1, 2]), **kw)
  elif name == "custom":
    import opt_einsum
    res = contractors.custom(nodes, opt_einsum.paths.greedy, **kw)
  else:
    # by hand, pairwise with outer products where needed
    live = list(nodes)
    for i, n in enumerate(live):
      if any(e.is_trace() for e in n.edges):
        live[i] = n @ n if name == "at" else tn.contract_trace_edges(n)
    while len(live) > 1:
      a, b = ctx.subset(live, 2)
      if tn.get_shared_edges(a, b):
        c = a @ b if name == "at" else tn.contract_between(a, b)
      else:
        c = tn.contract_between(a, b, allow_outer_product=True)
      live = [x for x in live if x is not a and x is not b] + [c]
    res = live[0]
    if out:
      res.reorder_edges(out)
    kw = {"x": 1}
  if kw or len(out) <= 1:
    ctx.check([id(e) for e in res.edges] == [id(e) for e in out],
              "%s: wrong edges or order", name)
  ctx.close(to_np(res.tensor), want, name)
  conserved(ctx, g, res.tensor, name)
  for k, q in enumerate(wantq):
    ctx.check(np.array_equal(sym.reduce_mod(g, sym.axis_q(res.tensor, k)), q),
              "%s: charges of result axis %d changed", name, k)
  ctx.obs("contracted")
  ctx.obs("contractor_" + name)
  fr.verify(ctx, name)


def case_ncon(ctx):
  g, nodes = gen(ctx, n=ctx.integers(1, 4), maxopen=4, maxrank=3)
  out = ctx.shuffled(_dangling(nodes))
  if int(np.prod([e.dimension for e in out], dtype=int)) > 600:
    raise core.Inconclusive("large result")
  want = network_value(nodes, out)
  wantq = [sym.axis_q(e.node1.tensor, e.axis1) for e in out]
  inner = ctx.shuffled({e for n in nodes for e in n.edges
                        if not e.is_dangling()})
  strings = ctx.flip(0.3)
  lab = {e: -(i + 1) for i, e in enumerate(out)}
  for i, e in enumerate(inner):
    lab[e] = "l%d" % i if strings else i + 1
  tensors = [n.tensor for n in nodes]
  labels = [[lab[e] for e in n.edges] for n in nodes]
  kw = {}
  if out and ctx.flip(0.3):
    p = ctx.perm(len(out))
    kw["out_order"] = [-(i + 1) for i in p]
    want = np.transpose(want, p)
    wantq = [wantq[i] for i in p]
  if inner and ctx.flip(0.3):
    kw["con_order"] = ctx.shuffled([lab[e] for e in inner])
  if ctx.flip(0.3):
    kw["check_network"] = False
  as_nodes = ctx.flip(0.25)
  fr = Frozen(**{"t%d" % i: t for i, t in enumerate(tensors)})
  ctx.note(labels, kw)
  args = ([tn.Tensor(t, backend="symmetric") for t in tensors] if as_nodes
          else tensors)
  res = tn.ncon(args, labels, backend="symmetric", **kw)
  if as_nodes:
    ctx.eq(type(res), tn.Tensor, "type of ncon's result for Tensors")
    res = res.array
  ctx.close(to_np(res), want, "ncon")
  if out:
    conserved(ctx, g, res, "ncon")
    for k, q in enumerate(wantq):
      ctx.check(np.array_equal(sym.reduce_mod(g, sym.axis_q(res, k)),
                               sym.reduce_mod(g, q)),
                "ncon: charges of result axis %d changed", k)
  ctx.obs("ncons")
  fr.verify(ctx, "ncon")


def case_copy(ctx):
  g, nodes = gen(ctx)
  out = _dangling(nodes)
  want = network_value(nodes, out)
  fr = Frozen(**{"t%d" % i: n.tensor for i, n in enumerate(nodes)})
  kind = ctx.choice(["copy", "copy_conj", "replicate", "conj", "norm",
                     "reduced"])
  if kind in ("copy", "copy_conj", "replicate"):
    if kind == "replicate":
      new = tn.replicate_nodes(nodes)
      pairs = list(zip(nodes, new))
    else:
      nmap, emap = tn.copy(nodes, conjugate=kind == "copy_conj")
      pairs = [(n, nmap[n]) for n in nodes]
      new = [b for _, b in pairs]
      for e in {e for n in nodes for e in n.edges}:
        ctx.check(emap[e].node1 is nmap[e.node1], "edge map of copy")
    nets.check_structure(ctx, new)
    outs = [b.edges[k] for a, b in pairs for k, e in enumerate(a.edges)
            if e.is_dangling()]
    ctx.close(network_value(new, outs),
              np.conj(want) if kind == "copy_conj" else want, kind)
    for a, b in pairs:
      for k in range(len(a.edges)):
        qa = sym.axis_q(a.tensor, k)
        qb = sym.axis_q(b.tensor, k)
        ctx.check(np.array_equal(
            sym.reduce_mod(g, -qa if kind == "copy_conj" else qa),
            sym.reduce_mod(g, qb)), "%s: charges of the copy", kind)
  elif kind == "conj":
    for n in nodes:
      c = node_linalg.conj(n)
      ctx.close(to_np(c.tensor), np.conj(to_np(n.tensor)), "conj")
      conserved(ctx, g, c.tensor, "conj")
      if len(n.edges) == 2:
        p = node_linalg.transpose(n, [1, 0])
        ctx.close(to_np(p.tensor), to_np(n.tensor).T, "transpose")
  elif kind == "norm":
    for n in nodes:
      ctx.close(np.asarray(node_linalg.norm(n)), np.linalg.norm(to_np(n.tensor)),
                "norm")
  else:
    # <psi|psi> by contracting the network with its conjugate copy
    nmap, emap = tn.copy(nodes, conjugate=True)
    for e in out:
      e ^ emap[e]
    every = list(nodes) + list(nmap.values())
    res = contractors.greedy(every)
    ctx.close(to_np(res.tensor), np.sum(np.abs(want)**2), "squared norm")
    ctx.obs("norm_networks")
  ctx.obs("copies")
  fr.verify(ctx, kind)


def case_incompatible(ctx):
  """Joining legs that are not dual never yields a value."""
  g = sym.group(ctx, 2)
  d = ctx.integers(2, 4)
  q = sym.rand_q(ctx, g, d, 2)
  f = ctx.flip()
  kind = ctx.choice(["charge", "permuted", "flow"])
  if kind == "charge":
    q2, f2 = np.array(q), not f
    i = ctx.integers(0, d - 1)
    k = ctx.integers(0, len(g) - 1)
    q2[i, k] = (q2[i, k] + 1) if g[k] is None else \
        (q2[i, k] + 1) % sym.mods(g)[k]
  elif kind == "permuted":
    q2, f2 = q[ctx.perm(d)], not f
  else:
    q2, f2 = q, f
  if np.array_equal(signed(g, q, f), sym.reduce_mod(g, -signed(g, q2, f2))):
    raise core.Inconclusive("dual by accident")
  extra = sym.rand_legs(ctx, g, 2, (1, 2, 3), empty=0)
  par = ctx.flip(0.4)
  pq, pf = sym.rand_q(ctx, g, 2, 1), ctx.flip()
  la = [(q, f), extra[0]] + ([(pq, pf)] if par else [])
  lb = [(q2, f2), extra[1]] + ([(pq, not pf)] if par else [])
  trace = ctx.flip(0.25)
  if trace:
    la = [(q, f), (q2, f2), extra[0]]
    t, _ = sym.make(ctx, g, la, [1] * 3)
    a = tn.Node(t, backend="symmetric")
    where = "trace"
    fr = Frozen(t=t)
    route = ctx.choice(["contract", "trace_edges", "ncon", "at", "bs",
                        "greedy"])

    def run():
      if route == "ncon":
        return tn.ncon([t], [[1, 1, -1]], backend="symmetric")
      if route == "bs":
        return bs.trace(t, (0, 1))
      e = a[0] ^ a[1]
      if route == "contract":
        return tn.contract(e)
      if route == "trace_edges":
        return tn.contract_trace_edges(a)
      if route == "greedy":
        return contractors.greedy([a])
      return a @ a
  else:
    ta, _ = sym.make(ctx, g, la, [1] * len(la))
    tb, _ = sym.make(ctx, g, lb, [1] * len(lb))
    a, b = tn.Node(ta, backend="symmetric"), tn.Node(tb, backend="symmetric")
    fr = Frozen(a=ta, b=tb)
    where = "pair"
    route = ctx.choice(["contract", "at", "between", "parallel", "ncon",
                        "greedy", "flatten", "tensordot", "optimal"])

    def run():
      if route == "ncon":
        return tn.ncon([ta, tb], [[1, -1] + [2] * par, [1, -2] + [2] * par],
                       backend="symmetric")
      if route == "tensordot":
        return bs.tensordot(ta, tb, ([0] + [2] * par, [0] + [2] * par))
      e = a[0] ^ b[0]
      if par:
        a[2] ^ b[2]
      if route == "contract":
        return tn.contract(e)
      if route == "at":
        return a @ b
      if route == "between":
        return tn.contract_between(a, b)
      if route == "parallel":
        return tn.contract_parallel(e)
      if route == "flatten":
        return tn.contract(tn.flatten_edges_between(a, b))
      out = [x for n in (a, b) for x in n.edges if x.is_dangling()]
      return getattr(contractors, route)([a, b], output_edge_order=out)

  ctx.note(g, kind, where, route, q.tolist(), f, q2.tolist(), f2)
  ctx.sig(kind, where, route, [str(x) for x in g], d)
  ctx.rejects(run, "%s of incompatible legs (%s) by %s" % (where, kind, route),
              EXCS)
  ctx.obs("incompatible_" + kind)
  ctx.obs("incompatible_" + where)
  fr.verify(ctx, "the rejected contraction")


CHECK = core.Check(
    "C13",
    [
        core.Group("programs", case_programs, 1200, 20000),
        core.Group("contractors", case_contractors, 900, 15000),
        core.Group("ncon", case_ncon, 900, 15000),
        core.Group("copy", case_copy, 600, 8000),
        core.Group("incompatible", case_incompatible, 900, 10000),
    ],
    rule="node-layer programs and contractions on block-sparse networks "
         "compared entry by entry and charge by charge with a dense shadow; "
         "distinct by symmetry, topology and operations",
    required=("programs", "charges_tracked", "node_splits", "split_svd",
              "split_full", "split_qr", "split_rq", "split", "flattened",
              "contracted", "ncons", "copies", "norm_networks",
              "incompatible_charge", "incompatible_permuted",
              "incompatible_flow", "incompatible_trace",
              "incompatible_pair"),
)
