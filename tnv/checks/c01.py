"""C01: network operations preserve the value of the network."""
import numpy as np
import tensornetwork as tn

from tnv import core, nets
from tnv.dense import to_np, network_value, Frozen


def _programs(ctx, backend, **kw):
  nodes = nets.gen_network(ctx, backend, **(kw or dict(n=ctx.integers(1, 5))))
  ctx.note(backend, nets.describe(nodes))
  ctx.sig(backend, nets.topo_sig(nodes))
  m = nets.Machine(ctx, nodes)
  steps = ctx.integers(2, 10) if backend == "numpy" else ctx.integers(2, 6)
  for _ in range(steps):
    if m.step() is None:
      break
  # finally the whole network: the sum over what is still joined
  out = m.dangling()
  toks = []
  num = {}
  for i, (e, r) in enumerate(m.recs.items()):
    for t in r:
      if t is not None:
        num[t] = i
  index = {e: i for i, e in enumerate(m.recs)}
  from tnv.dense import esum
  want = esum([m.arr(n) for n in m.nodes],
              [[num[t] for t in m.toks(n)] for n in m.nodes],
              [index[e] for e in out])
  ctx.close(network_value(m.nodes, out), want, "remaining network")
  ctx.obs("programs")


def case_numpy(ctx):
  _programs(ctx, "numpy")


def case_large(ctx):
  _programs(ctx, "numpy", **nets.large(ctx))
  ctx.obs("large_programs")


def case_full_large(ctx):
  case_full(ctx, nets.large(ctx))


def case_tf(ctx):
  _programs(ctx, "tensorflow")


def case_jax(ctx):
  _programs(ctx, "jax")


def case_full(ctx, kw=None):
  """Contract the whole network by single operations in random order and
  compare with the direct sum of the original tensors."""
  backend = nets.pick_backend(ctx, (0.85, 0.15, 0.0))
  if kw:
    backend = "numpy"
  nodes = nets.gen_network(ctx, backend, **(kw or dict(
      n=ctx.integers(2, 6), maxrank=4, p_connect=0.85, maxopen=4)))
  ctx.sig("full", nets.topo_sig(nodes))
  ctx.note(backend, nets.describe(nodes))
  out = ctx.shuffled(tn.get_all_dangling(nodes))
  want = network_value(nodes, out)
  if want.size > 4000:
    raise core.Inconclusive("too large")
  live = list(nodes)
  while True:
    es = [e for e in tn.get_all_nondangling(live)]
    es.sort(key=lambda e: (min(live.index(e.node1), live.index(e.node2)),
                           e.axis1, e.axis2))
    if not es:
      break
    e = ctx.choice(es)
    n1, n2 = e.node1, e.node2
    if ctx.flip(0.6):
      new = tn.contract_between(n1, n2)
    else:
      new = tn.contract(e)
    live = [n for n in live if n is not n1 and n is not n2] + [new]
    if to_np(new.tensor).size > 50000:
      raise core.Inconclusive("too large")
    ctx.obs("full_steps")
  if len(out) == 0 and len(live) > 1 or len(live) > 1:
    res = tn.outer_product_final_nodes(ctx.shuffled(live), list(out))
  else:
    res = live[0].reorder_edges(list(out))
  ctx.check(list(res.edges) == list(out), "final edge order")
  ctx.close(to_np(res.tensor), want, "complete contraction")
  ctx.obs("full_contractions")


def case_arith(ctx):
  """Node arithmetic is element-wise."""
  backend = nets.pick_backend(ctx, (0.5, 0.3, 0.2))
  shape = [ctx.choice([1, 2, 3]) for _ in range(ctx.integers(0, 3))]
  dtype = ctx.choice([np.float64, np.complex128])
  a, b = ctx.array(shape, dtype), ctx.array(shape, dtype) + 3
  na = tn.Node(a, backend=backend)
  nb = tn.Node(b, backend=backend)
  s = ctx.choice([2, 1.5, -3])
  ctx.sig(backend, shape, dtype, s)
  import operator
  for name, f in (("+", operator.add), ("-", operator.sub),
                  ("*", operator.mul), ("/", operator.truediv)):
    r = f(na, nb)
    ctx.close(to_np(r.tensor), f(a, b), "node %s node" % name)
    r = f(na, s)
    ctx.close(to_np(r.tensor), f(a, s), "node %s scalar" % name)
  ctx.close(to_np(na.tensor), a, "operand after arithmetic")
  ctx.close(to_np(nb.tensor), b, "operand after arithmetic")
  order = ctx.shuffled(na.edges)
  t = na.tensor_from_edge_order(order)
  ctx.close(to_np(t), np.transpose(a, [na.edges.index(e) for e in order]),
            "tensor_from_edge_order")
  other = "tensorflow" if backend == "numpy" else "numpy"
  nc = tn.Node(a, backend=other)
  ctx.rejects(lambda: na + nc, "adding nodes of different backends")
  ctx.rejects(lambda: tn.outer_product(na, nc), "outer product across backends")
  if shape:
    e = tn.connect(na[0], nc[0])
    ctx.rejects(lambda: tn.contract(e), "contracting across backends")
    ctx.rejects(lambda: tn.contract_between(na, nc),
                "contracting across backends")
  ctx.obs("arith")


CHECK = core.Check(
    "C01",
    [
        core.Group("programs_numpy", case_numpy, 2600, 60000),
        core.Group("full", case_full, 900, 20000),
        core.Group("large", case_large, 120, 3000),
        core.Group("full_large", case_full_large, 80, 2000),
        core.Group("programs_tf", case_tf, 200, 4000),
        core.Group("programs_jax", case_jax, 60, 700),
        core.Group("arith", case_arith, 120, 1500),
    ],
    rule="Random networks (1-6 nodes, rank 0-4, dimensions 1-3, parallel, "
    "trace and dangling edges, copy nodes, scalars) are driven through random "
    "programs of public operations next to a numpy shadow interpreter that "
    "compares every live node after every operation; a case is distinct by "
    "topology, dimensions and the operation sequence.",
    required=("programs", "full_contractions", "tensors_compared",
              "copy_nodes_contracted", "flattened", "split", "sliced",
              "requested_orders", "arith", "large_programs"),
    setup=nets.setup_jax,
    assumptions=["numpy's einsum, transpose and reshape are the oracle"])
