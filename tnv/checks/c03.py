"""C03: every contractor computes the network's exact value in the order
requested."""
import numpy as np
import opt_einsum
import tensornetwork as tn
from tensornetwork import contractors

from tnv import core, nets
from tnv.dense import to_np, network_value
from tnv.nets import check_structure, fingerprint

LIMIT = 4096


def _net(ctx, backend, n, **kw):
  kw.setdefault("maxopen", 5)
  nodes = nets.gen_network(ctx, backend, n=n, **kw)
  ctx.note(backend, nets.describe(nodes))
  ctx.sig(backend, nets.topo_sig(nodes))
  return nodes


def _random_optimizer(ctx, log):

  def optimizer(inputs, output, size_dict, memory_limit=None):
    log.append((len(inputs), memory_limit))
    n = len(inputs)
    path = []
    while n > 1:
      k = ctx.integers(2, n) if ctx.flip(0.2) else 2
      path.append(tuple(ctx.subset(range(n), k)))
      n -= k - 1
    return path

  return optimizer


def _valid_path(ctx, path, n):
  left = n
  for p in path:
    p = tuple(p)
    ctx.check(len(set(p)) == len(p) and all(0 <= i < left for i in p),
              "path step %s is not valid for %d remaining nodes", p, left)
    left -= len(p) - 1
    ctx.check(p, "empty path step")
  ctx.check(left == 1, "path %s leaves %d of %d nodes", path, left, n)
  ctx.obs("paths_validated")


def _contract(ctx, which, nodes, order, ignore):
  kw = {}
  if ignore:
    kw["ignore_edge_order"] = True
    if ctx.flip(0.3):
      kw["output_edge_order"] = order
  elif not (len(order) <= 1 and ctx.flip(0.5)):
    kw["output_edge_order"] = tuple(order) if ctx.flip(0.2) else list(order)
  arg = ctx.choice([list, list, set, tuple, iter, _gen])(nodes)
  if which == "custom":
    log = []
    res = contractors.custom(arg, _random_optimizer(ctx, log), **kw)
    return res
  fn = getattr(contractors, which)
  if which == "branch" and ctx.flip():
    kw["nbranch"] = ctx.choice([1, 2, None])
  if ctx.flip(0.2):
    kw["memory_limit"] = ctx.choice([1, 2, 4, 12, 100, 10**9])
    ctx.sig("limit", kw["memory_limit"])
    ctx.obs("memory_limits")
  return _within(ctx, kw, lambda: fn(arg, **kw), which in ("optimal", "auto"))


def _gen(nodes):
  return (x for x in nodes)


def _within(ctx, kw, fn, may_refuse):
  """A memory limit may make the exact solver find no contraction."""
  try:
    return fn()
  except RuntimeError as e:
    if not (may_refuse and kw.get("memory_limit", 10**9) < 10**9 and
            "memory_limit" in str(e)):
      raise
    ctx.obs("memory_limit_refusals")
    raise core.Inconclusive("no contraction within the memory limit")


def _finish(ctx, res, nodes, order, ignore, want, what, outside=()):
  ctx.check(isinstance(res, tn.AbstractNode), "%s returned %s", what,
            type(res).__name__)
  check_structure(ctx, [res] + list(outside))
  if ignore:
    ctx.check(set(res.edges) == set(order) and len(res.edges) == len(order),
              "%s: result carries edges %s", what, [e.name for e in res.edges])
    perm = [order.index(e) for e in res.edges]
    want = np.transpose(want, perm)
  else:
    ctx.check([id(e) for e in res.edges] == [id(e) for e in order],
              "%s: edges are not in the requested order", what)
  ctx.close(to_np(res.tensor), want, what)
  # the result is an ordinary node
  if len(res.edges) >= 2:
    flipped = list(res.edges)[::-1]
    res.reorder_edges(flipped)
    ctx.close(to_np(res.tensor), np.transpose(want), what + " reordered")
  for x in nodes:
    if x is res:
      continue
    ctx.check(all(e not in order for e in x.edges),
              "%s: a consumed node still holds an output edge", what)
  ctx.obs("contractions_" + what)


def case_algorithms(ctx, backend="numpy", big=False):
  which = ctx.choice(["optimal", "branch", "greedy", "auto", "custom"])
  if big:
    which = ctx.choice(["auto", "auto", "greedy", "branch1"])
    n = ctx.choice([5, 6, 7, 8, 9, 12, 14, 15, 16])
    nodes = _net(ctx, backend, n, maxrank=3, dims=(1, 2), p_connect=0.93,
                 maxopen=3, dtype=ctx.choice([np.float64, np.complex128]),
                 copy_nodes=0.15)
  else:
    nodes = _net(ctx, backend, ctx.integers(1, 6),
                 maxrank=4 if backend == "numpy" else 3)
  order = ctx.shuffled(tn.get_all_dangling(nodes))
  if np.prod([e.dimension for e in order], dtype=float) > LIMIT:
    raise core.Inconclusive("large")
  want = network_value(nodes, order)
  ignore = ctx.flip(0.25)
  ctx.sig(which, ignore)
  if which == "branch1":
    kw = {"nbranch": 1}
    res = contractors.branch(nodes, output_edge_order=order, **kw)
    ignore = False
    which = "branch"
  else:
    res = _contract(ctx, which, nodes, order, ignore)
  _finish(ctx, res, nodes, order, ignore, want, which)


def case_big(ctx):
  case_algorithms(ctx, big=True)


def case_tf(ctx):
  case_algorithms(ctx, "tensorflow")


def case_jax(ctx):
  case_algorithms(ctx, "jax")


def case_paths(ctx):
  n = ctx.integers(1, 6)
  nodes = _net(ctx, "numpy", n)
  order = ctx.shuffled(tn.get_all_dangling(nodes))
  if np.prod([e.dimension for e in order], dtype=float) > LIMIT:
    raise core.Inconclusive("large")
  want = network_value(nodes, order)
  alg = ctx.choice(["optimal", "branch", "greedy", "auto", "user", "user",
                    "opt_einsum"])
  before = fingerprint(nodes)
  arg = list(nodes)
  if alg == "user":
    left, path = n, []
    while left > 1:
      k = ctx.integers(2, left) if ctx.flip(0.1) else 2
      path.append(tuple(ctx.subset(range(left), k)))
      left -= k - 1
  elif alg == "opt_einsum":
    path = opt_einsum.paths.greedy([set(x.edges) for x in nodes], set(order),
                                   {e: e.dimension for x in nodes
                                    for e in x.edges})
  else:
    kw = {"nbranch": ctx.choice([1, 2, None])} if alg == "branch" else {}
    if ctx.flip(0.25):
      kw["memory_limit"] = ctx.choice([1, 2, 4, 12, 100, 10**9])
      ctx.sig("limit", kw["memory_limit"])
      ctx.obs("memory_limits")
    form = ctx.choice([list, tuple, _gen])
    path = _within(ctx, kw, lambda: contractors.path_solver(
        alg, form(nodes), **kw), alg == "optimal")
    if n > 1:
      _valid_path(ctx, path, n)
    ctx.check(fingerprint(nodes) == before, "path_solver changed the network")
  ctx.sig(alg)
  path_before = [tuple(p) for p in path]
  res = contractors.contract_path(path, arg, order)
  ctx.check(len(arg) == len(nodes) and all(a is b for a, b in zip(arg, nodes)),
            "contract_path modified the caller's node list")
  ctx.check([tuple(p) for p in path] == path_before,
            "contract_path modified the path")
  _finish(ctx, res, nodes, order, False, want, "contract_path")


def case_solver_big(ctx):
  n = ctx.choice([5, 7, 9, 14, 15, 17])
  nodes = _net(ctx, "numpy", n, maxrank=3, dims=(1, 2), p_connect=0.93,
               maxopen=3, dtype=np.float64, copy_nodes=0.1)
  order = ctx.shuffled(tn.get_all_dangling(nodes))
  want = network_value(nodes, order)
  path = contractors.path_solver("auto", nodes)
  _valid_path(ctx, path, n)
  res = contractors.contract_path(path, list(nodes), order)
  _finish(ctx, res, nodes, order, False, want, "contract_path")


def case_subnetwork(ctx):
  """Contracting part of a network keeps its links to the outside."""
  nodes = _net(ctx, "numpy", ctx.integers(2, 6), p_connect=0.9)
  part = ctx.subset(nodes, ctx.integers(1, len(nodes) - 1))
  rest = [n for n in nodes if n not in part]
  order = ctx.shuffled(sorted(tn.get_subgraph_dangling(part),
                              key=lambda e: (nodes.index(e.node1), e.axis1)))
  ids = {id(e) for e in order}
  if np.prod([e.dimension for e in order], dtype=float) > LIMIT:
    raise core.Inconclusive("large")
  want = network_value(part, order)
  out = ctx.shuffled(tn.get_all_dangling(nodes))
  total = network_value(nodes, out)
  which = ctx.choice(["optimal", "branch", "greedy", "custom", "auto"])
  ctx.sig("sub", which, len(part))
  log = []
  ignore = False
  if which == "custom":
    res = contractors.custom(part, _random_optimizer(ctx, log),
                             output_edge_order=order)
  elif ctx.flip(0.2):
    res = getattr(contractors, which)(part, ignore_edge_order=True)
    ignore = True
  else:
    res = getattr(contractors, which)(part, output_edge_order=order)
  _finish(ctx, res, part, order, ignore, want, "subnetwork", rest)
  ctx.close(network_value([res] + rest, out), total,
            "whole network after contracting a part")


def case_bucket(ctx):
  """Variable elimination over copy nodes."""
  d = ctx.choice([1, 2, 3])
  dtype = ctx.choice([np.float64, np.complex128])
  nc, nt = ctx.integers(1, 4), ctx.integers(1, 4)
  tensors = [tn.Node(ctx.array((d,) * ctx.integers(1, 3), dtype),
                     name="t%d" % i) for i in range(nt)]
  legs = ctx.shuffled([(t, k) for t in tensors for k in range(t.get_rank())])
  openl = ctx.integers(0, min(2, len(legs) - 1))
  legs = legs[openl:]
  groups = [[] for _ in range(nc)]
  for leg in legs:
    groups[ctx.integers(0, nc - 1)].append(leg)
  groups = [g for g in groups if g]
  copies = []
  for i, g in enumerate(groups):
    c = tn.CopyNode(len(g), d, name="c%d" % i, dtype=dtype)
    for k, (t, a) in enumerate(g):
      if ctx.flip():
        c[k] ^ t[a]
      else:
        t[a] ^ c[k]
    copies.append(c)
  nodes = tensors + copies
  ctx.sig(nets.topo_sig(nodes))
  ctx.note(nets.describe(nodes))
  out = ctx.shuffled(tn.get_all_dangling(nodes))
  want = network_value(nodes, out)
  order = ctx.shuffled(copies)
  if ctx.flip(0.3):
    order = order[:ctx.integers(0, len(order))]
  arg = ctx.choice([list, set, tuple])(nodes)
  res = contractors.bucket(arg, tuple(order) if ctx.flip() else order)
  res = list(res)
  ctx.check(len(arg) == len(nodes), "bucket modified the caller's collection")
  ctx.check(not any(c in res for c in order), "bucket returned an eliminated "
            "copy node")
  check_structure(ctx, res)
  ctx.check(set(tn.get_all_dangling(res)) == set(out), "bucket lost an edge")
  ctx.close(network_value(res, out), want, "bucket")
  if len(order) == len(copies):
    ctx.check(not tn.get_all_nondangling(res) or all(
        e.is_trace() for e in tn.get_all_nondangling(res)),
              "bucket left a connection")
  ctx.obs("contractions_bucket")


def case_rejects(ctx):
  nodes = _net(ctx, "numpy", ctx.integers(2, 5), p_connect=0.6)
  for n in nodes:
    _ = n.tensor
  dang = list(tn.get_all_dangling(nodes))
  inner = sorted(tn.get_all_nondangling(nodes),
                 key=lambda e: (nodes.index(e.node1), e.axis1))
  foreign = tn.Node(np.ones(2))
  bad = []
  if dang:
    bad.append(("missing output edge", dang[1:]))
  bad.append(("foreign output edge", dang + [foreign[0]]))
  if inner:
    bad.append(("connected output edge", dang + [ctx.choice(inner)]))
  if len(dang) > 1:
    bad.append(("no output order for several edges", None))
  fns = {
      "optimal": contractors.optimal,
      "branch": contractors.branch,
      "greedy": contractors.greedy,
      "auto": contractors.auto,
      "custom": lambda ns, output_edge_order: contractors.custom(
          ns, _random_optimizer(ctx, []), output_edge_order=output_edge_order),
  }
  for what, order in bad:
    name = ctx.choice(list(fns))
    before = fingerprint(nodes)
    ctx.rejects(lambda: fns[name](list(nodes), output_edge_order=order),
                "%s: %s" % (name, what))
    ctx.check(fingerprint(nodes) == before, "%s with %s: rejected, but the "
              "network changed", name, what)
  ctx.rejects(lambda: contractors.path_solver("no such algorithm", nodes),
              "unknown algorithm")
  ctx.rejects(lambda: contractors.auto([]), "empty network")
  one = tn.Node(ctx.array((2, 3)))
  ctx.rejects(lambda: contractors.auto([one]), "single node without order")
  ctx.rejects(lambda: contractors.auto([one], output_edge_order=[one[0]]),
              "single node with missing edge")
  ctx.obs("reject_cases")


CHECK = core.Check(
    "C03",
    [
        core.Group("algorithms", case_algorithms, 2400, 30000),
        core.Group("big", case_big, 320, 4000),
        core.Group("paths", case_paths, 1000, 12000),
        core.Group("solver_big", case_solver_big, 80, 800),
        core.Group("subnetwork", case_subnetwork, 600, 8000),
        core.Group("bucket", case_bucket, 800, 8000),
        core.Group("rejects", case_rejects, 300, 3000),
        core.Group("tf", case_tf, 120, 1200),
        core.Group("jax", case_jax, 40, 300),
    ],
    rule="Random networks of 1-17 nodes contracted by every contractor, by "
    "reported paths and by random user paths, in random output orders; the "
    "result is compared with a direct sum computed before. Distinct by "
    "topology, dimensions and contractor.",
    required=("contractions_optimal", "contractions_branch",
              "contractions_greedy", "contractions_auto",
              "contractions_custom", "contractions_contract_path",
              "contractions_bucket", "contractions_subnetwork",
              "paths_validated", "reject_cases", "memory_limits"),
    setup=nets.setup_jax)
