"""C02: edge and node bookkeeping stays consistent through any history."""
import itertools

import numpy as np
import tensornetwork as tn

from tnv import core, nets
from tnv.dense import to_np
from tnv.nets import check_structure, check_queries, fingerprint


def _dead_checks(ctx, m, start_edges=0, start_nodes=0):
  """Consumed edges refuse use; consumed nodes are detached."""
  for e in m.dead_edges[start_edges:]:
    for what, f in (("node1", lambda: e.node1), ("node2", lambda: e.node2),
                    ("axis1", lambda: e.axis1), ("name", lambda: e.name),
                    ("dimension", lambda: e.dimension)):
      ctx.rejects(f, "reading %s of a consumed edge" % what)
    ctx.check(e.is_disabled, "consumed edge is not disabled")
    ctx.stats.obs("dead_edges")
  live = {id(x) for x in m.nodes}
  for n in m.dead_nodes[start_nodes:]:
    for k, e in enumerate(n.edges):
      ctx.check(e not in m.recs, "consumed node %s still holds a live edge",
                n.name)
      ctx.check(e.is_dangling() and e.node1 is n and e.axis1 == k,
                "consumed node %s: axis %d has no fresh dangling edge", n.name,
                k)
    ctx.stats.obs("dead_nodes")


def case_history(ctx, backend="numpy", kw=None):
  nodes = nets.gen_network(ctx, backend, **(kw or dict(n=ctx.integers(1, 5))))
  ctx.note(backend, nets.describe(nodes))
  ctx.sig(backend, nets.topo_sig(nodes))
  check_structure(ctx, nodes)
  m = nets.Machine(ctx, nodes)
  for _ in range(ctx.integers(2, 9)):
    de, dn = len(m.dead_edges), len(m.dead_nodes)
    if ctx.flip(0.25):
      if not _extra(ctx, m):
        continue
    elif m.step() is None:
      break
    check_structure(ctx, m.nodes)
    check_queries(ctx, m.nodes)
    tn.check_correct(m.nodes, check_connections=False)
    if ctx.flip(0.3):
      _dead_checks(ctx, m)
    else:
      _dead_checks(ctx, m, de, dn)
  ctx.obs("histories")


def case_large(ctx):
  case_history(ctx, kw=nets.large(ctx))
  ctx.obs("large_histories")


def _replace(m, old, news):
  """The live network changed by an operation the shadow does not model:
  re-synchronise from the real objects (their structure is checked)."""
  m.nodes = [n for n in m.nodes if n is not old] + list(news)
  m.dead_nodes.append(old)
  m.keep.append(old)
  m.shadow.pop(id(old), None)
  m.shadow = {}
  m.recs = {}
  for n in m.nodes:
    a = to_np(n.tensor)
    m.shadow[id(n)] = (a, [next(m._tok) for _ in a.shape])
  for n in m.nodes:
    for k, e in enumerate(n.edges):
      tok = m.shadow[id(n)][1][k]
      if e.is_dangling():
        m.recs[e] = [tok, None]
      else:
        slot = 0 if (e.node1 is n and e.axis1 == k) else 1
        m.recs.setdefault(e, [None, None])[slot] = tok


def _extra(ctx, m):
  kind = ctx.choice(["split", "redirect", "copy", "names", "remove_all",
                     "conj"])
  if kind in ("copy", "conj") and any(
      isinstance(n, tn.CopyNode) and
      tuple(n.shape) != (n.dimension,) * n.rank for n in m.nodes):
    return False  # a reshaped copy node has no copy
  if kind == "split":
    cands = [n for n in m.nodes if n.get_rank() >= 2 and not m.has_trace(n)
             and isinstance(n, tn.Node)]
    if not cands:
      return False
    n = ctx.choice(cands)
    es = ctx.shuffled(n.edges)
    k = ctx.integers(1, len(es) - 1)
    left, right = es[:k], es[k:]
    which = ctx.choice(["split_node", "split_node_qr", "split_node_rq",
                        "split_node_full_svd"])
    names = {}
    if ctx.flip():
      names = {"left_name": "L", "right_name": "R"}
      if which == "split_node_full_svd":
        names.update(middle_name="M", left_edge_name="le",
                     right_edge_name="re")
      else:
        names["edge_name"] = "en"
    lname = {id(e): n.axis_names[i] for i, e in enumerate(n.edges)}
    if set(lname.values()) & {"en", "le", "re"}:
      return False
    res = getattr(tn, which)(n, list(left), list(right), **names)
    parts = res[:3] if which == "split_node_full_svd" else res[:2]
    ctx.check(list(parts[0].edges[:-1]) == left, "%s: left edges", which)
    ctx.check(list(parts[-1].edges[1:]) == right, "%s: right edges", which)
    bonds = [parts[i].edges[-1] for i in range(len(parts) - 1)]
    for b, x, y in zip(bonds, parts, parts[1:]):
      ctx.check(y.edges[0] is b, "%s: factors are not joined", which)
    if names:
      ctx.eq([p.name for p in parts],
             ["L", "M", "R"] if len(parts) == 3 else ["L", "R"],
             which + " names")
      bn = ["le", "re"] if len(parts) == 3 else ["en"]
      ctx.eq([b.name for b in bonds], bn, which + " edge names")
      ctx.eq(list(parts[0].axis_names),
             [lname[id(e)] for e in left] + [bn[0]], which + " axis names")
      ctx.eq(list(parts[-1].axis_names),
             [bn[-1]] + [lname[id(e)] for e in right], which + " axis names")
    for k, e in enumerate(n.edges):
      ctx.check(e.is_dangling() and e.node1 is n and e.axis1 == k,
                "%s: the split node keeps no fresh edges", which)
    _replace(m, n, parts)
  elif kind == "redirect":
    cands = [n for n in m.nodes if n.get_rank() >= 1 and
             isinstance(n, tn.Node)]
    if not cands:
      return False
    n = ctx.choice(cands)
    new = tn.Node(to_np(n.tensor), name="redir", backend=n.backend)
    for e in list(dict.fromkeys(n.edges)):
      tn.redirect_edge(e, new, n)
    check_structure(ctx, [n])
    _replace(m, n, [new])
    m.dead_nodes.pop()
  elif kind == "copy":
    before = fingerprint(m.nodes)
    nd, ed = tn.copy(m.nodes, conjugate=ctx.flip())
    check_structure(ctx, list(nd.values()))
    ctx.check(fingerprint(m.nodes) == before, "copy changed the original")
    if ctx.flip(0.3):
      m.nodes = []
      last = [nd[k] for k in nd]
      _replace(m, tn.Node(np.zeros(1)), last)
      m.dead_nodes.pop()
  elif kind == "conj":
    n = ctx.choice(m.nodes)
    c = n.copy(conjugate=True)
    check_structure(ctx, [c])
  elif kind == "names":
    n = ctx.choice(m.nodes)
    n.set_name("renamed")
    ctx.eq(n.name, "renamed", "set_name")
    r = n.get_rank()
    names = ["q%d" % i for i in range(r)]
    n.add_axis_names(names)
    ctx.eq(list(n.axis_names), names, "add_axis_names")
    for i in range(r):
      ctx.check(n["q%d" % i] is n.edges[i], "named lookup")
    for e in n.edges:
      e.set_name("edge_renamed")
      ctx.eq(e.name, "edge_renamed", "edge set_name")
      ctx.eq(str(e), "edge_renamed", "str(edge)")
    if names:
      names.append("later")
      ctx.eq(len(n.axis_names), r, "axis names alias the caller's list")
  else:
    if len(m.nodes) < 2:
      return False
    n = ctx.choice(m.nodes)
    tn.remove_node(n)
    ctx.check(all(e.is_dangling() or e.is_trace() for e in n.edges),
              "remove_node left a connection")
    _replace(m, tn.Node(np.zeros(1)), [])
    m.dead_nodes.pop()
  ctx.note("extra", kind)
  ctx.sig(kind)
  ctx.stats.obs("extra_" + kind)
  return True


def case_history_tf(ctx):
  case_history(ctx, "tensorflow")


def case_history_jax(ctx):
  case_history(ctx, "jax")


def _invalid_calls(ctx, nodes):
  """Invalid operations available in this network: (description, thunk)."""
  es = sorted(tn.get_all_edges(nodes),
              key=lambda e: (nodes.index(e.node1), e.axis1))
  dang = [e for e in es if e.is_dangling()]
  inner = [e for e in es if not e.is_dangling() and not e.is_trace()]
  trace = [e for e in es if e.is_trace()]
  b = nodes[0].backend
  foreign = tn.Node(np.ones((2, 3)), backend=b)
  calls = []
  add = lambda what, f: calls.append((what, f))
  if dang:
    de = ctx.choice(dang)
    add("connect edge to itself", lambda: tn.connect(de, de))
    add("^ edge to itself", lambda: de ^ de)
    add("disconnect dangling", lambda: tn.disconnect(de))
    add("edge.disconnect dangling", lambda: de.disconnect())
    add("contract dangling", lambda: tn.contract(de))
    add("contract_parallel dangling", lambda: tn.contract_parallel(de))
    d = int(de.dimension)
    big = tn.Node(np.ones(d + 1), backend=b)
    add("connect unequal dimensions", lambda: tn.connect(de, big[0]))
    add("connect unequal dimensions", lambda: big[0] ^ de)
    if inner + trace:
      f = ctx.choice(inner + trace)
      add("connect to a connected edge", lambda: tn.connect(de, f))
      add("connect a connected edge", lambda: tn.connect(f, de))
      add("flatten edges of different nodes", lambda: tn.flatten_edges([de, f]))
    add("e | f", lambda: de | foreign[0])
    add("flatten with foreign", lambda: tn.flatten_edges([de, foreign[0]]))
  add("flatten nothing", lambda: tn.flatten_edges([]))
  if inner:
    ie = ctx.choice(inner)
    n1, n2 = ie.node1, ie.node2
    shared = tn.get_shared_edges(n1, n2)
    ifree = [x for x in n1.edges + n2.edges if x not in shared]
    irank = len(ifree)
    add("contract_between: shared edge in order",
        lambda: tn.contract_between(n1, n2, output_edge_order=ifree + [ie]))
    add("contract_between: foreign edge in order",
        lambda: tn.contract_between(n1, n2,
                                    output_edge_order=ifree + [foreign[0]]))
    if irank and len(set(ifree)) == irank:
      if irank > 1:
        add("contract_between: missing edge in order",
            lambda: tn.contract_between(n1, n2, output_edge_order=ifree[1:]))
      add("contract_between: duplicate edge in order",
          lambda: tn.contract_between(n1, n2, output_edge_order=ifree +
                                      [ifree[0]]))
    add("contract_between: too many axis names",
        lambda: tn.contract_between(n1, n2, axis_names=[
            "z%d" % i for i in range(irank + 1)]))
    if irank > 1:
      add("contract_between: duplicate axis names",
          lambda: tn.contract_between(n1, n2, axis_names=["z"] * irank))
    add("contract: too many axis names",
        lambda: tn.contract(ie, axis_names=["z%d" % i for i in range(20)]))
    add("split_edge wrong shape",
        lambda: tn.split_edge(ie, (int(ie.dimension) + 1, 2)))
    add("split_edge too few names",
        lambda: tn.split_edge(ie, (1, int(ie.dimension)), ["a"]))
    add("split_edge too many names",
        lambda: tn.split_edge(ie, (1, int(ie.dimension)), ["a", "b", "c"]))
    add("split_edge negative sizes",
        lambda: tn.split_edge(ie, (-1, -int(ie.dimension))))
    add("slice_edge length 0", lambda: tn.slice_edge(ie, 0, 0))
    add("slice_edge negative length", lambda: tn.slice_edge(ie, 0, -1))
    add("slice_edge too long",
        lambda: tn.slice_edge(ie, 0, int(ie.dimension) + 1))
    add("slice_edge out of range",
        lambda: tn.slice_edge(ie, int(ie.dimension), 1))
    add("slice_edge far negative start",
        lambda: tn.slice_edge(ie, -int(ie.dimension) - 2, 1))
  if trace:
    te = ctx.choice(trace)
    tnode = te.node1
    add("reorder_edges with trace edge",
        lambda: tnode.reorder_edges(list(
            dict.fromkeys(tnode.edges))))
    add("split trace wrong shape",
        lambda: tn.split_edge(te, (int(te.dimension) + 1, 2)))
  for n in nodes:
    r = n.get_rank()
    _ = n.tensor
    free = list(n.edges)
    add("axis out of range", lambda n=n, r=r: n.get_dimension(r))
    add("negative axis", lambda n=n: n.get_dimension(-1))
    add("unknown axis name", lambda n=n: n["no such axis"])
    add("unknown axis name", lambda n=n: n.get_axis_number("no such axis"))
    add("add_edge out of range", lambda n=n, r=r: n.add_edge(foreign[0], r))
    add("axis names of wrong length",
        lambda n=n, r=r: n.add_axis_names(["a%d" % i for i in range(r + 1)]))
    add("axis_names of wrong length",
        lambda n=n, r=r: setattr(n, "axis_names",
                                 ["a%d" % i for i in range(r + 1)]))
    add("name type", lambda n=n: n.set_name(3))
    add("name type", lambda n=n: setattr(n, "name", 3))
    if r >= 1:
      add("axis names type", lambda n=n, r=r: n.add_axis_names([1] * r))
      add("edge name type", lambda n=n: n[0].set_name(1))
      add("edge name type", lambda n=n: setattr(n[0], "name", 1))
      add("reorder_axes short", lambda n=n, r=r: n.reorder_axes(
          list(range(r - 1))))
      add("reorder_axes long", lambda n=n, r=r: n.reorder_axes(
          list(range(r + 1))))
      if not free[0].is_dangling():
        add("add_edge on connected axis", lambda n=n: n.add_edge(foreign[0], 0))
    if r >= 2:
      add("duplicate axis names", lambda n=n, r=r: n.add_axis_names(["a"] * r))
      add("reorder_axes repeated", lambda n=n, r=r: n.reorder_axes(
          [0] * r))
      add("reorder_axes repeated", lambda n=n, r=r: n.reorder_axes(
          list(range(r)) + [0]))
      if len(set(free)) == r and not any(e.is_trace() for e in free):
        add("reorder_edges missing", lambda n=n, f=free: n.reorder_edges(f[1:]))
        add("reorder_edges foreign", lambda n=n, f=free: n.reorder_edges(
            f[1:] + [foreign[0]]))
        add("reorder_edges extra", lambda n=n, f=free: n.reorder_edges(
            f + [foreign[0]]))
        add("reorder_edges repeated", lambda n=n, f=free: n.reorder_edges(
            f + [f[0]]))
        if isinstance(n, tn.Node):
          for fn in (tn.split_node, tn.split_node_qr, tn.split_node_rq,
                     tn.split_node_full_svd):
            add(fn.__name__ + " foreign edge", lambda fn=fn, n=n, f=free: fn(
                n, f[:1], f[1:] + [foreign[0]]))
            add(fn.__name__ + " missing edge", lambda fn=fn, n=n, f=free: fn(
                n, f[:1], f[1:-1]))
            add(fn.__name__ + " repeated edge", lambda fn=fn, n=n, f=free: fn(
                n, f[:1], f))
            nm = n.axis_names
            if fn is tn.split_node_full_svd:
              kw = dict(left_edge_name="new!", right_edge_name=nm[-1])
            else:
              kw = dict(edge_name=nm[-1])
            add(fn.__name__ + " duplicate axis name",
                lambda fn=fn, n=n, f=free, kw=kw: fn(n, f[:1], f[1:], **kw))
    if isinstance(n, tn.CopyNode) and any(e.is_dangling() for e in n.edges):
      add("contract_copy_node dangling", lambda n=n: tn.contract_copy_node(n))
  for x, y in itertools.permutations(nodes, 2):
    if not tn.get_shared_edges(x, y):
      add("contract_between unconnected", lambda x=x, y=y: tn.contract_between(
          x, y))
      add("@ unconnected", lambda x=x, y=y: x @ y)
      rr = x.get_rank() + y.get_rank()
      add("outer_product axis names", lambda x=x, y=y, rr=rr: tn.outer_product(
          x, y, axis_names=["z%d" % i for i in range(rr + 1)]))
      break
  x = nodes[-1]
  if not any(e.is_trace() for e in x.edges):
    add("contract_between itself", lambda: tn.contract_between(x, x))
    add("contract_between itself",
        lambda: tn.contract_between(x, x, allow_outer_product=True))
  for y in nodes:
    if y.get_rank():
      add("outer_product with itself", lambda y=y: tn.outer_product(y, y))
      add("outer_product_final_nodes with itself",
          lambda y=y: tn.outer_product_final_nodes([y, y], list(y.edges)))
      break
  if es:
    re = ctx.choice(es)
    add("flatten a repeated edge", lambda: tn.flatten_edges([re, re]))
    add("split_edge wrong product",
        lambda: tn.split_edge(re, (int(re.dimension), 2)))
  add("@ non-node", lambda: x @ 3)
  if inner:
    y = inner[0].node1
    add("outer_product_final_nodes with open connection",
        lambda: tn.outer_product_final_nodes([y], []))
  if x.get_rank() and not x[0].is_trace():
    wrong = foreign
    add("redirect_edge from the wrong node",
        lambda: tn.redirect_edge(x[0], tn.Node(np.ones(x.shape), backend=b),
                                 wrong))
  add("reduced_density of connected edges",
      lambda: tn.reduced_density([inner[0]]) if inner else 1 / 0)
  return calls


def case_rejects(ctx, backend="numpy"):
  nodes = nets.gen_network(ctx, backend, n=ctx.integers(1, 4), maxrank=3,
                           p_connect=0.6, maxopen=5, p_trace=0.3)
  ctx.sig(backend, nets.topo_sig(nodes))
  ctx.note(backend, nets.describe(nodes))
  for n in nodes:
    _ = n.tensor
  names = [nd.name for nd in nodes]
  calls = ctx.shuffled(_invalid_calls(ctx, nodes))
  for what, f in calls[:14 if backend == "numpy" else 6]:
    before = fingerprint(nodes)
    ctx.rejects(f, what)
    after = fingerprint(nodes)
    if before != after:
      ctx.fail("%s: rejected, but the network changed" % what)
    check_structure(ctx, nodes)
    ctx.stats.obs("reject:" + what)
  # it is still fully usable
  m = nets.Machine(ctx, nodes)
  for _ in range(2):
    m.step()
    check_structure(ctx, m.nodes)
  ctx.obs("reject_cases")


def case_mixed(ctx):
  """Nodes of two backends never combine, and a refusal changes nothing."""
  names = ["numpy", "tensorflow", "jax"] if ctx.flip(0.1) else \
      ["numpy", "tensorflow"]
  p, q = ctx.subset(names, 2)
  sa = [ctx.choice([2, 4]) for _ in range(ctx.integers(1, 3))]
  k = ctx.integers(1, len(sa))
  sb = ctx.shuffled(sa[:k] + [ctx.choice([1, 3])] * ctx.integers(0, 1))
  a = tn.Node(ctx.array(sa, np.float64), backend=p, name="a")
  b = tn.Node(ctx.array(sb, np.float64), backend=q, name="b")
  free = list(range(len(sb)))
  edges = []
  for i in range(k):
    j = ctx.choice([x for x in free if sb[x] == sa[i]])
    free.remove(j)
    edges.append(tn.connect(a[i], b[j]))
  ctx.sig(p, q, sa, sb, k)
  ctx.note(p, q, sa, sb, k)
  e = ctx.choice(edges)
  nodes = [a, b]
  c = tn.Node(ctx.array((2,), np.float64), backend=p)
  d = tn.Node(ctx.array((2,), np.float64), backend=q)
  dims = (2, e.dimension // 2)
  calls = [("contract", lambda: tn.contract(e)),
           ("contract_parallel", lambda: tn.contract_parallel(e)),
           ("contract_between", lambda: tn.contract_between(a, b)),
           ("contract_between", lambda: tn.contract_between(
               b, a, allow_outer_product=True)),
           ("@", lambda: a @ b),
           ("flatten_edges", lambda: tn.flatten_edges(ctx.shuffled(edges))),
           ("split_edge", lambda: tn.split_edge(e, dims)),
           ("slice_edge", lambda: tn.slice_edge(e, 0, 1)),
           ("outer_product", lambda: tn.outer_product(c, d)),
           ("outer_product_final_nodes",
            lambda: tn.outer_product_final_nodes([c, d], [d[0], c[0]])),
           ("greedy", lambda: tn.contractors.greedy(
               [a, b], ignore_edge_order=True)),
           ("+", lambda: a + b), ("*", lambda: a * b), ("-", lambda: c - d),
           ("/", lambda: c / d)]
  for what, f in ctx.shuffled(calls)[:6]:
    if what == "flatten_edges" and len(edges) < 2:
      continue
    before = fingerprint(nodes + [c, d])
    ctx.rejects(f, what + " over two backends")
    if fingerprint(nodes + [c, d]) != before:
      ctx.fail("%s over two backends: rejected, but the network changed" % what)
    check_structure(ctx, nodes + [c, d])
  ctx.obs("mixed_backends")


def case_rejects_tf(ctx):
  case_rejects(ctx, "tensorflow")


def case_stale(ctx):
  """Superseded edge objects are refused and change nothing."""
  d = ctx.choice([1, 2, 3])
  mk = lambda r: tn.Node(ctx.array((d,) * r), backend="numpy")
  nodes = [mk(ctx.integers(1, 3)) for _ in range(3)]
  a, b, c = nodes
  ea, eb, ec = a[ctx.integers(0, a.get_rank() - 1)], b[0], c[0]
  mode = ctx.choice(["connected", "disconnected", "contracted", "moved"])
  ctx.sig(mode, d, [n.get_rank() for n in nodes])
  if mode == "connected":
    e = ea ^ eb
    calls = [("connect", lambda: tn.connect(ea, ec)),
             ("^", lambda: ec ^ eb)]
    live = nodes
    # the superseded dangling objects no longer sit on their node
    ctx.check(not ea.is_being_used() and not eb.is_being_used(),
              "superseded edges claim to be in use")
  elif mode == "disconnected":
    e = ea ^ eb
    x, y = e | e
    ctx.check(not e.is_being_used(), "broken edge claims to be in use")
    calls = [("disconnect again", lambda: tn.disconnect(x))]
    live = nodes
  elif mode == "contracted":
    e = ea ^ eb
    r = tn.contract(e)
    live = [r, c]
    calls = [("contract again", lambda: tn.contract(e)),
             ("disconnect consumed", lambda: tn.disconnect(e)),
             ("flatten consumed", lambda: tn.flatten_edges([e, ec])),
             ("split consumed", lambda: tn.split_edge(e, (1, d))),
             ("slice consumed", lambda: tn.slice_edge(e, 0, 1)),
             ("connect consumed", lambda: tn.connect(e, ec)),
             ("reorder with consumed", lambda: c.reorder_edges([e]))]
  else:
    if a.get_rank() < 2:
      raise core.Inconclusive("rank")
    f = tn.flatten_edges([a[0], a[1]])
    live = nodes
    old = ea if ea.is_disabled else None
    calls = []
    if old is not None:
      calls = [("connect flattened-away edge", lambda: tn.connect(old, ec)),
               ("name of flattened-away edge", lambda: old.name)]
  for what, fn in calls:
    before = fingerprint(live)
    ctx.rejects(fn, what)
    ctx.check(fingerprint(live) == before, "%s changed the network", what)
    check_structure(ctx, live)
  ctx.obs("stale_cases")


def case_ctor(ctx):
  """Constructors reject inconsistent names and bad types."""
  r = ctx.integers(1, 4)
  t = ctx.array([ctx.choice([1, 2, 3]) for _ in range(r)])
  names = ["a%d" % i for i in range(r)]
  ctx.sig(r, t.shape)
  n = tn.Node(t, name="x", axis_names=names)
  names_before = list(names)
  check_structure(ctx, [n])
  ctx.eq([n[k].name for k in range(r)], names, "edges take the axis names")
  names.reverse()
  ctx.eq(list(n.axis_names), names_before, "caller's list is shared")
  ctx.rejects(lambda: tn.Node(t, axis_names=names + ["more"]), "long names")
  ctx.rejects(lambda: tn.Node(t, axis_names=names[:-1]), "short names")
  if r > 1:
    ctx.rejects(lambda: tn.Node(t, axis_names=["a"] * r), "duplicate names")
  ctx.rejects(lambda: tn.Node(t, name=5), "name type")
  ctx.rejects(lambda: tn.Node(t, axis_names=list(range(r))), "name types")
  ctx.rejects(lambda: tn.Node(t, backend="no such backend"), "backend")
  u = tn.Node(t)
  ctx.eq(u.name, "__unnamed_node__", "default name")
  ctx.eq([e.name for e in u.edges], ["__unnamed_edge__"] * r, "edge names")
  ctx.eq(list(u.axis_names), [str(i) for i in range(r)], "axis names")
  e = tn.connect(u[0], tn.Node(ctx.array(t.shape[:1]))[0])
  ctx.eq(e.name, "__unnamed_edge__", "default edge name")
  x, y = tn.disconnect(e)
  ctx.check(x.name != y.name, "disconnected edges share a name")
  ctx.rejects(lambda: tn.Edge(u, 0, node2=u), "edge without second axis")
  ctx.rejects(lambda: tn.Edge(u, 0, axis2=0), "edge without second node")
  ctx.rejects(lambda: tn.Edge(u, 0, name=3), "edge name type")
  w = tn.Node(u)
  check_structure(ctx, [w, u])
  ctx.check(w.edges[0] is not u.edges[0], "Node(node) shares edges")
  ctx.close(to_np(w.tensor), t, "Node(node)")
  fresh = list(u.edges)
  u.fresh_edges(["f%d" % i for i in range(r)])
  check_structure(ctx, [u])
  ctx.check(all(x is not y for x, y in zip(fresh, u.edges)), "fresh_edges")
  w.disable()
  ctx.rejects(lambda: w.edges, "edges of a disabled node")
  ctx.rejects(lambda: w.shape, "shape of a disabled node")
  ctx.rejects(lambda: w[0], "edge of a disabled node")
  ctx.rejects(lambda: w.disable(), "disabling twice")
  ctx.rejects(lambda: w @ u, "@ of a disabled node")
  k, d = ctx.integers(1, 4), ctx.choice([1, 2, 3])
  c = tn.CopyNode(k, d, axis_names=["c%d" % i for i in range(k)])
  check_structure(ctx, [c])
  ctx.eq((c.rank, c.dimension, tuple(c.shape)), (k, d, (d,) * k), "CopyNode")
  from tnv.dense import delta
  ctx.close(to_np(c.tensor), delta(k, d), "copy tensor")
  ctx.obs("ctor_cases")


CHECK = core.Check(
    "C02",
    [
        core.Group("history", case_history, 1500, 30000),
        core.Group("rejects", case_rejects, 1200, 20000),
        core.Group("mixed", case_mixed, 150, 1500),
        core.Group("large", case_large, 100, 2000),
        core.Group("history_tf", case_history_tf, 100, 1500),
        core.Group("rejects_tf", case_rejects_tf, 60, 800),
        core.Group("history_jax", case_history_jax, 30, 300),
        core.Group("stale", case_stale, 150, 1500),
        core.Group("ctor", case_ctor, 120, 1000),
    ],
    rule="Random operation histories on random networks; after every step the "
    "structural invariant is walked over all live nodes, every query function "
    "is compared with brute force, consumed objects are probed; invalid calls "
    "are issued and the complete fingerprint (objects, names, axes, bits) is "
    "compared before and after. Distinct by topology, dimensions and history.",
    required=("histories", "structures_checked", "query_checks", "dead_edges",
              "dead_nodes", "reject_cases", "stale_cases", "ctor_cases",
              "extra_split", "extra_redirect", "extra_copy"),
    setup=nets.setup_jax)
