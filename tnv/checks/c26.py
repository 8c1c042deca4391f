"""C26: contraction-order solvers return valid orders with true, optimal cost.

Oracle: exact dynamic programming over subsets, on the index sets themselves.
"""
import itertools
import math
import warnings

import numpy as np
import tensornetwork as tn
from tensornetwork.contractors.custom_path_solvers import (nconinterface,
                                                           pathsolvers)

from tnv import core
from tnv.dense import to_np

TOL = 2e-6


# -------------------------------------------------------------------- networks


def network(ctx, n, small):
  """labels, dims: a random network in ncon notation."""
  style = ctx.choice(["sparse", "sparse", "chain", "ring", "dense", "star",
                      "parts", "tree"])
  pairs = []
  if style == "chain":
    pairs = [(i, i + 1) for i in range(n - 1)]
  elif style == "ring":
    pairs = [(i, (i + 1) % n) for i in range(n)] if n > 2 else \
        [(0, 1)] * (n - 1)
  elif style == "dense":
    pairs = list(itertools.combinations(range(n), 2))
  elif style == "star":
    pairs = [(0, i) for i in range(1, n)]
  elif style == "tree":
    pairs = [(ctx.integers(0, i - 1), i) for i in range(1, n)]
  else:
    k = ctx.integers(0, 2 * n)
    lim = n if style == "sparse" else max(1, n // 2)
    if style == "sparse":
      pairs = [(ctx.integers(0, i - 1), i) for i in range(1, n)
               if ctx.flip(0.85)]
    for _ in range(k // 2):
      a, b = ctx.integers(0, n - 1), ctx.integers(0, n - 1)
      if a != b and (style == "sparse" or (a < lim) == (b < lim)):
        pairs.append((a, b))
  if ctx.flip(0.3):
    pairs += [ctx.choice(pairs)] if pairs else []
  perm = ctx.perm(n)
  if small:
    pool = ctx.choice([[1, 2, 3], [2], [2, 3], [1], [1, 2], [2, 3, 4]])
  else:
    pool = ctx.choice([[2, 3, 4, 5, 7], [1, 2, 3], [2], [4], [1, 10, 100],
                       [2, 50, 1000], [3, 9, 27, 81], [1], [10**6, 2, 3]])
  labels, dims = [[] for _ in range(n)], {}
  style_l = ctx.choice(["consecutive", "gaps"])
  pos = itertools.count(1) if style_l == "consecutive" else \
      itertools.count(ctx.integers(1, 9), ctx.integers(1, 4))
  for a, b in pairs:
    l = next(pos)
    dims[l] = ctx.choice(pool)
    labels[perm[a]].append(l)
    labels[perm[b]].append(l)
  traces = 0
  for i in range(n):
    if ctx.flip(0.1):
      l = next(pos)
      dims[l] = ctx.choice(pool)
      labels[i] += [l, l]
      traces += 1
  no = ctx.integers(0, min(n + 1, 5)) if ctx.flip(0.8) else 0
  for k in range(no):
    l = -(k + 1)
    dims[l] = ctx.choice(pool)
    labels[ctx.integers(0, n - 1)].append(l)
  labels = [ctx.shuffled(l) for l in labels]
  if small and any(len(l) > 6 for l in labels) or any(
      math.prod(dims[x] for x in l) > 2**50 for l in labels):
    raise core.Inconclusive("large")
  return labels, dims


def tensors_of(ctx, labels, dims, real):
  if real:
    return [ctx.array(tuple(dims[l] for l in ls), ints=True) for ls in labels]
  return [np.broadcast_to(np.float64(0), tuple(dims[l] for l in ls))
          for ls in labels]


# --------------------------------------------------------------------- oracle


class Model:
  """Exact costs: every index is a (frozenset of tensors, dimension)."""

  def __init__(self, labels, dims):
    n = self.n = len(labels)
    self.dims = dims
    self.own = []
    for ls in labels:
      own = {}
      for l in ls:
        own[l] = own.get(l, 0) + 1
      self.own.append({l for l, c in own.items() if c == 1})
    self.size = {}

  def open(self, S):
    """Labels of the tensor obtained by contracting the set S."""
    if S not in self.size:
      cnt = {}
      for i in S:
        for l in self.own[i]:
          cnt[l] = cnt.get(l, 0) + 1
      self.size[S] = frozenset(l for l, c in cnt.items() if c == 1)
    return self.size[S]

  def cost(self, A, B):
    return math.prod(self.dims[l] for l in self.open(A) | self.open(B))

  def linked(self, A, B):
    """Sharing an index of dimension larger than one."""
    return any(self.dims[l] > 1 for l in self.open(A) & self.open(B))

  def best(self, outer):
    """Minimal summed multiplications over all pairwise orders.

    outer=False: outer products only once no pair of tensors shares an index
    of dimension larger than one.
    """
    n = self.n
    full = frozenset(range(n))
    memo = {}

    def solve(S, join):
      if len(S) == 1:
        return 0
      key = S
      if key in memo:
        return memo[key]
      items = sorted(S, key=lambda x: sorted(x) if isinstance(
          x, frozenset) else x)
      first, rest = items[0], items[1:]
      res = None
      for r in range(len(rest)):
        for sub in itertools.combinations(rest, r):
          A = frozenset((first,) + sub)
          B = S - A
          fa, fb = flatten(A), flatten(B)
          if join == "linked" and not self.linked(fa, fb):
            continue
          a = solve(A, join)
          if a is None:
            continue
          b = solve(B, join)
          if b is None:
            continue
          c = a + b + self.cost(fa, fb)
          if res is None or c < res:
            res = c
      memo[key] = res
      return res

    def flatten(S):
      return frozenset(x for s in S for x in (
          s if isinstance(s, frozenset) else (s,)))

    if outer:
      return solve(full, "any")
    comps = self.components()
    total = sum(solve(c, "linked") for c in comps)
    memo.clear()
    if len(comps) > 1:
      total += solve(frozenset(comps), "any")
    return total

  def components(self):
    left, comps = set(range(self.n)), []
    while left:
      comp, todo = set(), [left.pop()]
      while todo:
        i = todo.pop()
        comp.add(i)
        for j in list(left):
          if self.linked(frozenset([i]), frozenset([j])):
            left.discard(j)
            todo.append(j)
      comps.append(frozenset(comp))
    return comps

  def run(self, ctx, order, what):
    """Executes a sequence of pairwise contractions; (cost, outer used)."""
    o = np.asarray(order)
    ctx.eq(o.shape, (2, self.n - 1), what + ": shape of the order")
    ctx.check(o.dtype.kind in "iu", "%s: order of dtype %s", what, o.dtype)
    parts = [frozenset([i]) for i in range(self.n)]
    total, early_outer = 0, False
    for a, b in o.T.tolist():
      ctx.check(0 <= a < len(parts) and 0 <= b < len(parts) and a != b,
                "%s: step (%d, %d) with %d tensors left", what, a, b,
                len(parts))
      A, B = parts[a], parts[b]
      if not self.linked(A, B) and any(
          self.linked(x, y) for x, y in itertools.combinations(parts, 2)):
        early_outer = True
      total += self.cost(A, B)
      parts[min(a, b)] = A | B
      del parts[max(a, b)]
    ctx.eq(len(parts), 1, what + ": contracts the whole network")
    return total, early_outer

  def run_labels(self, con_order):
    """Cost of contracting label by label, then outer products by size."""
    parts = [frozenset([i]) for i in range(self.n)]
    total = 0
    for l in con_order:
      hit = [p for p in parts if l in self.open(p)]
      if len(hit) == 2:
        total += self.cost(*hit)
        parts = [p for p in parts if p not in hit] + [hit[0] | hit[1]]
    size = lambda p: math.prod(self.dims[l] for l in self.open(p))
    while len(parts) > 1:
      parts.sort(key=size)
      total += size(parts[0]) * size(parts[1])
      parts = [parts[0] | parts[1]] + parts[2:]
    return total


def log_adj(model):
  n = model.n
  a = np.zeros((n, n))
  for i in range(n):
    for l in model.own[i]:
      owners = [j for j in range(n) if l in model.own[j]]
      if len(owners) == 1:
        a[i, i] += math.log10(model.dims[l])
      else:
        a[owners[0], owners[1]] += math.log10(model.dims[l]) / 2
        a[owners[1], owners[0]] += math.log10(model.dims[l]) / 2
  return a


def lg(x):
  return math.log10(x) if x else -math.inf


def same_cost(ctx, got, want, what):
  got = float(np.asarray(got))
  if want == 0:
    ctx.check(got == -math.inf or got is None, "%s: cost %s of no contraction",
              what, got)
    return
  ctx.check(abs(got - lg(want)) < TOL, "%s: reported cost %.9f, executing the "
            "order costs %.9f", what, got, lg(want))


# ---------------------------------------------------------------------- checks


def judge(ctx, m, order, cost, opt, what, best):
  done, early = m.run(ctx, order, what)
  if m.n > 1:
    same_cost(ctx, cost, done, what)
  if opt is not None:
    ctx.check(opt in (True, False), "%s: optimality flag %s", what, opt)
  if opt and m.n > 1:
    ctx.check(lg(done) <= lg(best) + TOL, "%s claims optimality with cost %.6f"
              ", the minimum is %.6f", what, lg(done), lg(best))
    ctx.obs("optimal_claims")
  return done, early


def full_branches(ctx, m, best, adj=None, tensors=None, labels=None):
  """full solver for several branch bounds."""
  g1 = pathsolvers.greedy_size_solve(adj)
  g2 = pathsolvers.greedy_cost_solve(adj)
  c1, e1 = judge(ctx, m, g1[0], g1[1], None, "greedy_size_solve", best)
  c2, e2 = judge(ctx, m, g2[0], g2[1], None, "greedy_cost_solve", best)
  greedy = min(c1, c2)
  ctx.obs("greedy_orders")
  for mb in [None, 1, ctx.choice([2, 3, 5]), ctx.choice([10, 30, 200])]:
    kw = {} if mb is None and ctx.flip() else {"max_branch": mb}
    before = adj.copy()
    order, cost, opt = pathsolvers.full_solve_complete(adj, **kw)
    what = "full_solve_complete(max_branch=%s)" % mb
    ctx.check(np.array_equal(adj, before), "%s changed its input", what)
    done, early = judge(ctx, m, order, cost, opt, what, best)
    ctx.check(lg(done) <= lg(greedy) + TOL, "%s: cost %.6f is worse than greedy"
              " (%.6f)", what, lg(done), lg(greedy))
    if mb is None:
      # without a bound the search is complete
      ctx.check(lg(done) <= lg(best) + TOL, "%s: cost %.6f, the minimum is "
                "%.6f", what, lg(done), lg(best))
      ctx.check(opt or early, "%s: complete search not reported as optimal",
                what)
    ctx.obs("full_orders")


def case_adjacency(ctx):
  n = ctx.integers(2, 7)
  labels, dims = network(ctx, n, False)
  m = Model(labels, dims)
  ctx.note("adjacency", labels, dims)
  best = m.best(False)
  adj = log_adj(m)
  if ctx.flip(0.3):
    adj = np.asfortranarray(adj)
  full_branches(ctx, m, best, adj)
  ctx.sig("adj", tuple(tuple(l) for l in labels), tuple(sorted(dims.items())))


def case_ncon(ctx):
  n = ctx.integers(1, 7)
  labels, dims = network(ctx, n, False)
  m = Model(labels, dims)
  ctx.note("ncon", labels, dims)
  ts = tensors_of(ctx, labels, dims, False)
  arg = ctx.choice([list, tuple])(
      ctx.choice([list, tuple])(l) for l in labels)
  adj = nconinterface.ncon_to_adj(ts, arg)
  want = log_adj(m)
  ctx.eq(tuple(adj.shape), (n, n), "ncon_to_adj: shape")
  ctx.check(np.allclose(adj, want, atol=1e-9), "ncon_to_adj: wrong matrix\n%s\n"
            "expected\n%s", adj, want)
  solver(ctx, m, ts, arg, labels)
  ctx.sig("ncon", tuple(tuple(l) for l in labels), tuple(sorted(dims.items())))


def solver(ctx, m, ts, arg, labels):
  mb = ctx.choice([None, None, None, 1, 2, 5, 50])
  con, cost, opt = nconinterface.ncon_solver(ts, arg, max_branch=mb)
  what = "ncon_solver(max_branch=%s)" % mb
  con = [c for c in np.asarray(con).tolist()]
  want = sorted({l for ls in labels for l in ls if l > 0})
  ctx.check(sorted(con) == want, "%s: order %s does not contain every "
            "contracted label of %s once", what, con, labels)
  best = m.best(False)
  lo = m.best(True) if m.n <= 6 else None
  if m.n > 1:
    c = float(np.asarray(cost))
    if opt:
      ctx.check(abs(c - lg(best)) < TOL, "%s claims optimal cost %.6f, the "
                "minimum is %.6f", what, c, lg(best))
      ctx.obs("optimal_claims")
      # the label order is the optimal contraction
      if all(d > 1 for d in m.dims.values()) and len(m.components()) == 1:
        ctx.check(lg(m.run_labels(con)) < c + TOL, "%s: contracting by the "
                  "label order costs %.6f instead of %.6f", what,
                  lg(m.run_labels(con)), c)
        ctx.obs("label_order_costs")
    if lo is not None:
      ctx.check(c >= lg(lo) - TOL, "%s: cost %.6f below the minimum %.6f", what,
                c, lg(lo))
    if mb is None:
      ctx.check(c <= lg(best) + TOL, "%s: cost %.6f above the minimum %.6f",
                what, c, lg(best))
  # the independent cost check
  got = nconinterface.ncon_cost_check(ts, arg, con if con or ctx.flip()
                                      else None)
  same_cost(ctx, got, m.run_labels(con), "ncon_cost_check")
  some = ctx.shuffled(want)
  how = ctx.choice([list, np.array, tuple])
  if some:
    same_cost(ctx, nconinterface.ncon_cost_check(ts, arg, how(some)),
              m.run_labels(some), "ncon_cost_check of a random order")
    same_cost(ctx, nconinterface.ncon_cost_check(ts, arg), m.run_labels(want),
              "ncon_cost_check of the default order")
  ctx.obs("ncon_orders")
  return con


def case_execute(ctx):
  """The order drives a real contraction."""
  n = ctx.integers(1, 6)
  labels, dims = network(ctx, n, True)
  ts = tensors_of(ctx, labels, dims, True)
  m = Model(labels, dims)
  ctx.note("execute", labels, dims)
  con = solver(ctx, m, ts, labels, labels)
  b = ctx.choice(["numpy", "numpy", "tensorflow", "jax"])
  kw = {"con_order": con} if con or ctx.flip() else {}
  flat = sorted({l for ls in labels for l in ls}, key=lambda l: (-l))
  ids = {l: i for i, l in enumerate(flat)}
  out = sorted((l for l in flat if l < 0), reverse=True)
  ops = []
  for t, ls in zip(ts, labels):
    ops += [t, [ids[l] for l in ls]]
  want = np.einsum(*ops, [ids[l] for l in out], optimize=True)
  got = to_np(tn.ncon(ts, labels, backend=b, **kw))
  ctx.close(got, want, "ncon with the solver's order", tol=1e-9)
  # pairwise orders turned into labels
  adj = nconinterface.ncon_to_adj(ts, labels)
  pick = ctx.choice([pathsolvers.greedy_size_solve,
                     pathsolvers.greedy_cost_solve, None])
  if pick is not None and n > 1:
    order = pick(adj)[0]
  else:
    order = np.array([sorted(ctx.subset(range(k), 2)) for k in
                      range(n, 1, -1)], dtype=int).reshape(n - 1, 2).T
  con2 = nconinterface.ord_to_ncon(labels, order)
  con2 = np.asarray(con2).tolist()
  ctx.check(sorted(con2) == sorted({l for ls in labels for l in ls if l > 0}),
            "ord_to_ncon(%s) of %s: %s", order.tolist(), labels, con2)
  # labels appear in the order in which the pairwise steps contract them
  rank, parts = {}, [frozenset([i]) for i in range(n)]
  for k, (x, y) in enumerate(np.asarray(order).T.tolist()):
    for l in m.open(parts[x]) & m.open(parts[y]):
      rank[l] = k
    parts[min(x, y)] = parts[x] | parts[y]
    del parts[max(x, y)]
  ks = [rank.get(l, -1) for l in con2]
  ctx.check(ks == sorted(ks), "ord_to_ncon(%s) of %s: %s contracts in another "
            "order", order.tolist(), labels, con2)
  if con2:
    got = to_np(tn.ncon(ts, labels, con_order=con2, backend=b))
    ctx.close(got, want, "ncon with a pairwise order", tol=1e-9)
  ctx.sig("exec", b, tuple(tuple(l) for l in labels))
  ctx.obs("executed")


def case_large(ctx):
  """Networks large enough for the solver to compress its set of paths."""
  n = ctx.choice([8, 9, 9, 10])
  labels, dims = network(ctx, n, False)
  if ctx.flip():
    # equal dimensions: the cost bound prunes little
    dims = dict.fromkeys(dims, ctx.choice([2, 3]))
  m = Model(labels, dims)
  ctx.note("large", labels, dims)
  full_branches(ctx, m, m.best(False), log_adj(m))
  ctx.sig("large", tuple(tuple(l) for l in labels))
  ctx.obs("large_networks")


def setup():
  from tnv import nets
  nets.setup_jax()
  warnings.simplefilter("ignore")


CHECK = core.Check(
    "C26",
    [
        core.Group("adjacency", case_adjacency, 700, 12000),
        core.Group("ncon", case_ncon, 900, 14000),
        core.Group("execute", case_execute, 900, 14000),
        core.Group("large", case_large, 40, 600),
    ],
    rule="costs of executed orders recomputed exactly from the index sets; "
         "minima by dynamic programming over all subsets; distinct by network",
    required=("optimal_claims", "full_orders", "greedy_orders", "ncon_orders",
              "label_order_costs", "executed", "large_networks"),
    setup=setup,
)
