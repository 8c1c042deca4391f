"""C09: copies are faithful and independent; graph queries are true."""
import numpy as np
import tensornetwork as tn

from tnv import core, nets
from tnv.dense import esum, network_value, to_np
from tnv.nets import check_structure, check_queries, fingerprint


def _make(ctx, backend, **kw):
  """A network, sometimes with a history behind it."""
  nodes = nets.gen_network(ctx, backend, **kw)
  if ctx.flip(0.4):
    m = nets.Machine(ctx, nodes)
    for _ in range(ctx.integers(1, 3)):
      m.step()
    nodes = list(m.nodes)
  if ctx.flip(0.3):
    done = nets.shake(ctx, nodes)
    if any(d[1] == "CopyNode" and d[0] in ("flatten", "split", "slice")
           for d in done):
      ctx.obs("reshaped_copy_nodes")
  return nodes


def check_copy(ctx, part, node_dict, edge_dict, conj, what):
  """The copy is the original's image under the two maps."""
  part = list(part)
  inside = {id(x) for x in part}
  ctx.check(set(node_dict) == set(part) and len(node_dict) == len(part),
            "%s: node map has the wrong keys", what)
  edges = {e for x in part for e in x.edges}
  ctx.check(set(edge_dict) == edges, "%s: edge map has the wrong keys", what)
  copies = [node_dict[x] for x in part]
  ctx.check(len({id(c) for c in copies}) == len(part) and
            not {id(c) for c in copies} & inside,
            "%s: nodes are shared between original and copy", what)
  new_edges = list(edge_dict.values())
  ctx.check(len({id(e) for e in new_edges}) == len(edges) and
            not {id(e) for e in new_edges} & {id(e) for e in edges},
            "%s: edges are shared", what)
  for x in part:
    c = node_dict[x]
    ctx.check(type(c) is type(x), "%s: type of %s changed", what, x.name)
    ctx.eq(c.name, x.name, what + ": name")
    ctx.eq(list(c.axis_names), list(x.axis_names), what + ": axis names")
    ctx.check(c.backend is x.backend, "%s: backend of %s", what, x.name)
    if isinstance(x, tn.CopyNode):
      ctx.eq((c.rank, c.dimension, np.dtype(c.dtype)),
             (x.rank, x.dimension, np.dtype(x.dtype)), what + ": copy node")
    a, b = to_np(x.tensor), to_np(c.tensor)
    ctx.check(a.dtype == b.dtype and np.array_equal(np.conj(a) if conj else a,
                                                    b),
              "%s: tensor of %s differs", what, x.name)
    ctx.eq(len(c.edges), len(x.edges), what + ": rank")
    for k, e in enumerate(x.edges):
      f = c.edges[k]
      ctx.check(f is edge_dict[e], "%s: axis %d of the copy of %s does not "
                "carry the mapped edge", what, k, x.name)
      ctx.eq(f.name, e.name, what + ": edge name")
      ends = [(e.node1, e.axis1)]
      if not e.is_dangling():
        ends.append((e.node2, e.axis2))
      want = [(id(node_dict[n]), a) for n, a in ends if id(n) in inside]
      got = [(id(f.node1), f.axis1)]
      if not f.is_dangling():
        got.append((id(f.node2), f.axis2))
      ctx.check(sorted(got) == sorted(want), "%s: edge %s has other endpoints",
                what, e.name)
      ctx.stats.obs("copied_edges")
  check_structure(ctx, copies)
  ctx.obs("copies_checked")
  return copies


def case_copy(ctx, backend="numpy"):
  kw = dict(n=ctx.integers(1, 5), copy_nodes=0.2)
  if backend == "numpy" and ctx.flip(0.04):
    kw = nets.large(ctx)
    ctx.obs("large_copies")
  nodes = _make(ctx, backend, **kw)
  if ctx.flip(0.5):
    part = ctx.shuffled(nodes)
  else:
    part = ctx.subset(nodes, ctx.integers(1, len(nodes)))
  conj = ctx.flip()
  fp = fingerprint(nodes)
  ctx.note(backend, nets.describe(nodes), len(part), conj)
  ctx.sig(backend, nets.topo_sig(nodes), len(part), conj)
  form = ctx.choice([list, tuple, set, iter])
  nd, ed = tn.copy(form(part), conjugate=conj) if conj or ctx.flip() else \
      tn.copy(form(part))
  ctx.check(fingerprint(nodes) == fp, "copy changed the original network")
  copies = check_copy(ctx, part, nd, ed, conj, "copy")
  open_edges = [e for e in ed if e.is_dangling() or not
                {id(e.node1), id(e.node2)} <= {id(x) for x in part}]
  want = network_value(part, open_edges)
  ctx.close(network_value(copies, [ed[e] for e in open_edges]),
            np.conj(want) if conj else want, "value of the copy")
  # replicate_nodes keeps the order
  reps = tn.replicate_nodes(ctx.choice([list, iter])(part), conjugate=conj)
  ctx.eq(len(reps), len(part), "replicate_nodes: number of nodes")
  emap = {}
  for x, r in zip(part, reps):
    for k, e in enumerate(x.edges):
      ctx.check(emap.setdefault(e, r.edges[k]) is r.edges[k],
                "replicate_nodes: edge %s became two edges", e.name)
  check_copy(ctx, part, dict(zip(part, reps)), emap, conj, "replicate_nodes")
  # histories on one network never reach the other
  m = nets.Machine(ctx, copies)
  for _ in range(ctx.integers(1, 5)):
    m.step()
  if ctx.flip(0.5):
    _poke(ctx, m.nodes)
  ctx.check(fingerprint(nodes) == fp, "operations on the copy changed the "
            "original network")
  check_structure(ctx, nodes)
  fpc = fingerprint(m.nodes)
  rfp = fingerprint(reps)
  m2 = nets.Machine(ctx, nodes)
  for _ in range(ctx.integers(1, 5)):
    m2.step()
  if ctx.flip(0.5):
    _poke(ctx, m2.nodes)
  ctx.check(fingerprint(m.nodes) == fpc, "operations on the original changed "
            "the copy")
  ctx.check(fingerprint(reps) == rfp, "operations on the original changed "
            "its replica")
  ctx.obs("independence_checked")


def _poke(ctx, nodes):
  """Renames and re-tensors a network."""
  for i, x in enumerate(nodes):
    if ctx.flip(0.3):
      x.set_name("poke%d" % i)
    if ctx.flip(0.3) and x.get_rank():
      x.add_axis_names(["p%d_%d" % (i, k) for k in range(x.get_rank())])
    if ctx.flip(0.3) and not isinstance(x, tn.CopyNode):
      x.set_tensor(x.backend.multiply(x.tensor, x.tensor))
    for e in x.edges:
      if ctx.flip(0.2):
        e.set_name("poked")


def case_node(ctx, backend="numpy"):
  """node.copy and the node-level conj / transpose / norm."""
  from tensornetwork.linalg import node_linalg
  nodes = nets.gen_network(ctx, backend, n=ctx.integers(1, 3), p_trace=0.5,
                           dtype=ctx.choice([np.float64, np.complex128]))
  if ctx.flip(0.3):
    nets.shake(ctx, nodes)
  x = ctx.choice(nodes)
  fp = fingerprint(nodes)
  conj = ctx.flip()
  ctx.note(backend, nets.describe(nodes), x.name)
  ctx.sig(backend, nets.topo_sig(nodes), nodes.index(x), conj)
  a = to_np(x.tensor)
  c = x.copy(conj) if ctx.flip() else x.copy(conjugate=conj)
  ctx.check(type(c) is type(x) and c is not x, "node.copy type")
  ctx.eq((c.name, list(c.axis_names)), (x.name, list(x.axis_names)),
         "node.copy names")
  b = to_np(c.tensor)
  ctx.check(b.dtype == a.dtype and np.array_equal(
      b, np.conj(a) if conj else a), "node.copy tensor")
  check_structure(ctx, [c])
  for k, e in enumerate(x.edges):
    f = c.edges[k]
    ctx.check(f is not e, "node.copy shares an edge")
    ctx.eq(f.name, e.name, "node.copy edge name")
    ctx.check(f.is_trace() == e.is_trace() and (
        f.is_dangling() or e.is_trace()), "node.copy: axis %d", k)
    if e.is_trace():
      other = e.axis2 if e.axis1 == k else e.axis1
      ctx.check(c.edges[other] is f, "node.copy: trace edge")
  names = ["q%d" % k for k in range(a.ndim)] if ctx.flip() else None
  d = node_linalg.conj(x, name="cj", axis_names=names)
  ctx.eq(d.name, "cj", "conj name")
  ctx.eq(list(d.axis_names), names or list(x.axis_names), "conj axis names")
  ctx.check(np.array_equal(to_np(d.tensor), np.conj(a)), "conj tensor")
  check_structure(ctx, [d])
  ctx.check(all(e.is_dangling() for e in d.edges), "conj edges dangle")
  perm = ctx.perm(a.ndim)
  if a.ndim:
    if len(set(x.axis_names)) == a.ndim and ctx.flip(0.4):
      arg = [x.axis_names[p] for p in perm]
    else:
      arg = perm
    t = node_linalg.transpose(x, arg, axis_names=names)
    ctx.check(np.array_equal(to_np(t.tensor), np.transpose(a, perm)),
              "transpose tensor")
    ctx.eq(list(t.axis_names), names or [x.axis_names[p] for p in perm],
           "transpose axis names")
    check_structure(ctx, [t])
  ctx.close(to_np(node_linalg.norm(x)), np.linalg.norm(a.ravel()), "node norm",
            shape=False)
  ctx.check(fingerprint(nodes) == fp, "node-level operation changed the "
            "network")
  ctx.obs("nodes_checked")


# ------------------------------------------------------------------- queries
def _graph(ctx):
  n = ctx.integers(11, 25) if ctx.flip(0.08) else ctx.integers(1, 10)
  nodes = [tn.Node(np.zeros((2,) * ctx.integers(0, 5)), name="n%d" % i)
           for i in range(n)]
  free = ctx.shuffled([(i, k) for i, x in enumerate(nodes)
                       for k in range(x.get_rank())])
  p = ctx.choice([0.2, 0.5, 0.9, 1.0])
  while len(free) > 1:
    i, k = free.pop()
    if not ctx.flip(p):
      continue
    j = ctx.integers(0, len(free) - 1)
    i2, k2 = free.pop(j)
    nodes[i][k] ^ nodes[i2][k2]
  return nodes


def case_queries(ctx):
  nodes = _graph(ctx)
  n = len(nodes)
  num = {x: i for i, x in enumerate(nodes)}
  ctx.note(nets.describe(nodes))
  ctx.sig(nets.topo_sig(nodes))
  adj = [set() for _ in nodes]
  edges = []
  for i, x in enumerate(nodes):
    for k, e in enumerate(x.edges):
      if e not in edges:
        edges.append(e)
  for e in edges:
    if e.node2 is not None:
      a, b = num[e.node1], num[e.node2]
      adj[a].add(b)
      adj[b].add(a)
  comp = list(range(n))
  for _ in range(n):
    for i in range(n):
      for j in adj[i]:
        comp[i] = comp[j] = min(comp[i], comp[j])
  closure = lambda s: {nodes[j] for i in s for j in range(n)
                       if comp[j] == comp[i]}
  fp = fingerprint(nodes)
  for i, x in enumerate(nodes):
    ctx.check(tn.reachable(x) == closure([i]), "reachable(node)")
    nb = tn.get_neighbors(x)
    ctx.check(len(nb) == len(set(nb)) and set(nb) ==
              {nodes[j] for j in adj[i] if j != i}, "get_neighbors of %s: %s",
              x.name, [y.name for y in nb])
  for e in edges:
    ctx.check(tn.reachable(e) == closure([num[e.node1]]), "reachable(edge)")
  sub = ctx.subset(range(n), ctx.integers(1, n))
  part = [nodes[i] for i in sub]
  form = ctx.choice([list, tuple, set, iter])
  ctx.check(tn.reachable(form(part)) == closure(sub), "reachable(nodes)")
  if edges:
    es = ctx.subset(edges, ctx.integers(1, len(edges)))
    ctx.check(tn.reachable(form(es)) == closure([num[e.node1] for e in es]),
              "reachable(edges)")
    ctx.check(tn.reachable(list(es) + part) == closure(
        sub + [num[e.node1] for e in es]), "reachable(mixed)")
    ctx.check(tn.get_all_nodes(form(es)) == {
        y for e in es for y in (e.node1, e.node2) if y is not None},
              "get_all_nodes")
  for bad in ([1], [None], ["a"], [part[0], 3]):
    ctx.rejects(lambda b=bad: tn.reachable(b), "reachable(%r)" % (bad,),
                (TypeError,))
  ctx.check(tn.get_all_edges(form(part)) == {e for x in part for e in x.edges},
            "get_all_edges")
  want = {e for x in part for e in x.edges if e.node2 is None or
          e.node1 not in part or e.node2 not in part}
  ctx.check(tn.get_subgraph_dangling(form(part)) == want,
            "get_subgraph_dangling")
  one = len({comp[i] for i in sub}) == 1
  if one:
    ctx.check(tn.check_connected(form(part)) is None, "check_connected")
    tn.check_correct(form(part))
    ctx.stats.obs("connected")
  else:
    ctx.rejects(lambda: tn.check_connected(form(part)), "check_connected of "
                "%d components" % len({comp[i] for i in sub}), (ValueError,))
    ctx.rejects(lambda: tn.check_correct(form(part)), "check_correct of a "
                "disconnected network", (ValueError,))
    tn.check_correct(form(part), check_connections=False)
    tn.check_correct(form(part), False)
    ctx.stats.obs("disconnected")
  check_queries(ctx, nodes)
  ctx.check(fingerprint(nodes) == fp, "a query changed the network")
  # inconsistent networks are noticed
  bad = [x for x in part if x.get_rank() >= 2]
  if bad:
    x = ctx.choice(bad)
    k, l = ctx.subset(range(x.get_rank()), 2)
    if x.edges[k] is not x.edges[l]:
      kind = ctx.choice(["swap", "foreign", "axis"])
      if kind == "swap":
        x.edges[k], x.edges[l] = x.edges[l], x.edges[k]
      elif kind == "foreign":
        x.edges[k] = tn.Node(np.zeros(2))[0]
      else:
        e = x.edges[k]
        if e.node1 is x and e.axis1 == k:
          e.axis1 = x.get_rank()
        else:
          e.axis2 = x.get_rank()
      ctx.rejects(lambda: tn.check_correct(part, check_connections=False),
                  "check_correct of a corrupted network (%s)" % kind,
                  (ValueError,))
      ctx.stats.obs("corruptions_detected")
  ctx.obs("graphs")


def case_remove(ctx):
  """remove_node cuts exactly the edges to other nodes."""
  kw = (nets.large(ctx) if ctx.flip(0.05) else
        dict(n=ctx.integers(1, 5), copy_nodes=0.2))
  nodes = _make(ctx, "numpy", **kw)
  n = ctx.choice(nodes)
  rest = [x for x in nodes if x is not n]
  ctx.sig(nets.topo_sig(nodes), nodes.index(n))
  ctx.note(nets.describe(nodes))
  before = {id(x): (list(x.edges), list(x.axis_names), x.name,
                    tuple(x.shape)) for x in nodes}
  cut = {}                      # axis of n -> (node, axis) it was joined to
  for k, e in enumerate(n.edges):
    ends = [(e.node1, e.axis1)] + ([] if e.is_dangling() else
                                   [(e.node2, e.axis2)])
    other = [x for x in ends if x[0] is not n]
    if other:
      cut[k] = other[0]
  by_name, by_axis = tn.remove_node(n)
  ctx.eq(sorted(by_axis), sorted(cut), "remove_node: axes")
  ctx.eq(set(by_name), {before[id(n)][1][k] for k in cut},
         "remove_node: axis names")
  for k, (o, a) in cut.items():
    e = by_axis[k]
    ctx.check(by_name[before[id(n)][1][k]] is e, "remove_node: the maps "
              "disagree on axis %d", k)
    ctx.check(e is o.edges[a] and e.is_dangling() and e.node1 is o and
              e.axis1 == a, "remove_node: axis %d is mapped to the wrong edge",
              k)
    ctx.check(n.edges[k].is_dangling() and n.edges[k].node1 is n,
              "remove_node: the node keeps its edge at axis %d", k)
  moved = {(id(o), a) for o, a in cut.values()}
  for x in nodes:
    edges, names, name, shape = before[id(x)]
    ctx.eq((list(x.axis_names), x.name, tuple(x.shape)), (names, name, shape),
           "remove_node: names and shape")
    for k, e in enumerate(edges):
      if (id(x), k) not in moved and not (x is n and k in cut):
        ctx.check(x.edges[k] is e, "remove_node: an edge it does not cut "
                  "was replaced")
  check_structure(ctx, rest + [n])
  ctx.check(tn.reachable(n) == {n}, "remove_node: still connected")
  ctx.obs("removed_nodes")
  ctx.stats.obs("cut_edges", len(cut))


def case_topology(ctx):
  n = ctx.integers(1, 5)
  letters = ctx.shuffled("abcdefghij")
  legs = [[] for _ in range(n)]
  for c in letters[:ctx.integers(0, 8)]:
    cand = [i for i in range(n) if len(legs[i]) < 4]
    for i in ctx.subset(cand, min(len(cand), ctx.integers(1, 2))):
      legs[i].append(c)
  legs = [ctx.shuffled(l) for l in legs]
  dims = {c: ctx.integers(1, 3) for c in letters}
  arrays = [ctx.array([dims[c] for c in l]) for l in legs]
  topo = ",".join("".join(l) for l in legs)
  backend = ctx.choice([None, "numpy", "numpy", "tensorflow", "jax"])
  ctx.note(topo, backend)
  ctx.sig(topo, backend)
  res = (tn.from_topology(topo, arrays, backend=backend) if backend else
         tn.from_topology(topo, arrays))
  ctx.eq(len(res), n, "from_topology: number of nodes")
  check_structure(ctx, res)
  where = {}
  for x, l, a in zip(res, legs, arrays):
    ctx.eq(list(x.axis_names), l, "from_topology axis names")
    ctx.eq(x.backend.name, backend or "numpy", "from_topology backend")
    ctx.check(np.array_equal(to_np(x.tensor), a), "from_topology tensor")
    for c, e in zip(l, x.edges):
      where.setdefault(c, []).append((x, e))
  for c, ls in where.items():
    if len(ls) == 2:
      ctx.check(ls[0][1] is ls[1][1], "from_topology: %r not joined", c)
    else:
      ctx.check(ls[0][1].is_dangling(), "from_topology: %r not open", c)
  out = sorted(c for c, l in where.items() if len(l) == 1)
  ctx.close(network_value(res, [where[c][0][1] for c in out]),
            esum(arrays, legs, out), "value of from_topology")
  ctx.rejects(lambda: tn.from_topology(topo + ",", arrays),
              "from_topology with too few tensors", (ValueError,))
  ctx.rejects(lambda: tn.from_topology(topo, arrays + [np.ones(())]),
              "from_topology with too many tensors", (ValueError,))
  i = ctx.integers(0, n - 1)
  bad = list(arrays)
  bad[i] = np.ones(arrays[i].shape + (1,))
  ctx.rejects(lambda: tn.from_topology(topo, bad), "from_topology with a "
              "tensor of another rank", (ValueError,))
  pair = [c for c, l in where.items() if len(l) == 2]
  if pair:
    c = ctx.choice(pair)
    bad = list(arrays)
    i = ctx.choice([i for i, l in enumerate(legs) if c in l])
    k = legs[i].index(c)
    s = list(arrays[i].shape)
    s[k] += 1
    bad[i] = np.ones(s)
    ctx.rejects(lambda: tn.from_topology(topo, bad), "from_topology with "
                "mismatched dimensions")
    bad = arrays + [np.ones(dims[c])]
    ctx.rejects(lambda: tn.from_topology(topo + "," + c, bad),
                "from_topology with a label on three tensors")
  ctx.obs("topologies")


def case_density(ctx, backend="numpy"):
  nodes = nets.gen_network(ctx, backend, n=ctx.integers(1, 4), maxrank=3,
                           dtype=ctx.choice([np.float64, np.complex128]),
                           copy_nodes=0.1, maxopen=5)
  dang = [e for x in nodes for e in x.edges if e.is_dangling()]
  if not dang:
    raise core.Inconclusive("no open edge")
  traced = ctx.subset(dang, ctx.integers(1, len(dang)))
  ctx.note(backend, nets.describe(nodes), "traced", len(traced))
  ctx.sig(backend, nets.topo_sig(nodes), len(traced))
  inner = [e for x in nodes for e in x.edges if not e.is_dangling()]
  if inner:
    fp = fingerprint(nodes)
    ctx.rejects(lambda: tn.reduced_density(ctx.shuffled(
        traced + [ctx.choice(inner)])), "reduced_density with a connected edge",
                (ValueError,))
    ctx.check(fingerprint(nodes) == fp, "rejected reduced_density changed the "
              "network")
  # the component(s) of the traced edges
  comp = {e.node1 for e in traced}
  while True:
    more = {y for x in comp for e in x.edges for y in (e.node1, e.node2)
            if y is not None} | comp
    if more == comp:
      break
    comp = more
  comp = [x for x in nodes if x in comp]
  rest = [x for x in nodes if x not in comp]
  fpr = fingerprint(rest)
  keep = [e for e in dang if e.node1 in comp and e not in traced]
  psi = network_value(comp, keep + traced)
  k = len(keep)
  lab = list(range(k + len(traced)))
  want = esum([psi, np.conj(psi)],
              [lab, [100 + i for i in range(k)] + lab[k:]],
              list(range(k)) + [100 + i for i in range(k)])
  snap = [(x, x.name, list(x.axis_names), to_np(x.tensor)) for x in comp]
  inner_edges = {e for x in comp for e in x.edges} - set(traced)
  places = {e: (e.node1, e.axis1) for e in traced}
  nd, ed = tn.reduced_density(ctx.choice([list, set, iter])(traced))
  ctx.check(set(nd) == set(comp), "reduced_density: node map keys")
  ctx.check(set(ed) == inner_edges | set(traced),
            "reduced_density: edge map keys")
  for x, name, axn, a in snap:
    ctx.eq((x.name, list(x.axis_names)), (name, axn),
           "reduced_density: names of the original")
    ctx.check(np.array_equal(to_np(x.tensor), a) and
              np.array_equal(to_np(nd[x].tensor), np.conj(a)),
              "reduced_density: tensors")
  for e in traced:
    f = ed[e]
    x, k = places[e]
    ctx.check(not f.is_dangling() and {f.node1, f.node2} == {x, nd[x]} and
              f.axis1 == f.axis2 == k and x.edges[k] is f,
              "reduced_density: traced edge joins the wrong axes")
  everything = comp + [nd[x] for x in comp]
  check_structure(ctx, everything)
  got = network_value(everything, keep + [ed[e] for e in keep])
  ctx.close(got, want, "reduced density matrix")
  ctx.check(fingerprint(rest) == fpr, "reduced_density touched another "
            "component")
  ctx.obs("densities")


def case_switch(ctx):
  nodes = nets.gen_network(ctx, "numpy", n=ctx.integers(1, 4), copy_nodes=0.15)
  new = ctx.choice(["tensorflow", "jax", "numpy"])
  ctx.note(new, nets.describe(nodes))
  ctx.sig(new, nets.topo_sig(nodes))
  values = [(to_np(x.tensor), x.name, list(x.axis_names), list(x.edges))
            for x in nodes]
  form = ctx.choice([list, tuple, set, iter])
  tn.switch_backend(form(nodes), new)
  for x, (a, name, axn, es) in zip(nodes, values):
    ctx.eq(x.backend.name, new, "switch_backend: backend name")
    b = to_np(x.tensor)
    ctx.check(b.dtype == a.dtype and np.array_equal(a, b),
              "switch_backend changed the tensor of %s", name)
    probe = x.backend.convert_to_tensor(np.ones(1))
    ctx.check(isinstance(x.tensor, type(probe)), "switch_backend: %s holds a "
              "%s", name, type(x.tensor).__name__)
    ctx.eq((x.name, list(x.axis_names)), (name, axn), "switch_backend names")
    ctx.check([id(e) for e in x.edges] == [id(e) for e in es],
              "switch_backend edges")
  check_structure(ctx, nodes)
  m = nets.Machine(ctx, nodes)
  for _ in range(ctx.integers(1, 4)):
    m.step()
  if new != "numpy":
    fp = fingerprint(m.nodes)
    ctx.rejects(lambda: tn.switch_backend(m.nodes, "numpy"),
                "switching from " + new, (NotImplementedError,))
    ctx.check(fingerprint(m.nodes) == fp, "rejected switch_backend")
  ctx.rejects(lambda: tn.switch_backend(m.nodes, "symmetric"),
              "switching to symmetric", (ValueError,))
  ctx.rejects(lambda: tn.switch_backend(m.nodes, "nosuch"),
              "switching to an unknown backend", (ValueError,))
  check_structure(ctx, m.nodes)
  ctx.obs("switches")


CHECK = core.Check(
    "C09",
    [
        core.Group("copy", case_copy, 3000, 40000),
        core.Group("copy_tf", lambda c: case_copy(c, "tensorflow"), 80, 800),
        core.Group("copy_jax", lambda c: case_copy(c, "jax"), 60, 600),
        core.Group("node", case_node, 800, 8000),
        core.Group("node_tf", lambda c: case_node(c, "tensorflow"), 80, 800),
        core.Group("node_jax", lambda c: case_node(c, "jax"), 60, 600),
        core.Group("queries", case_queries, 1200, 16000),
        core.Group("remove", case_remove, 800, 10000),
        core.Group("topology", case_topology, 600, 6000),
        core.Group("density", case_density, 800, 10000),
        core.Group("density_tf", lambda c: case_density(c, "tensorflow"), 60,
                   600),
        core.Group("density_jax", lambda c: case_density(c, "jax"), 40, 400),
        core.Group("switch", case_switch, 150, 1500),
    ],
    rule="cases in which a copy, a query or a construction was compared with "
         "the graph; distinct by topology, subset and backend",
    required=("copies_checked", "independence_checked", "graphs", "densities",
              "topologies", "connected", "disconnected",
              "corruptions_detected", "switches", "reshaped_copy_nodes",
              "removed_nodes"),
    setup=nets.setup_jax,
)
