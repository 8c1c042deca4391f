"""Independent oracles on plain numpy arrays."""
import itertools

import numpy as np


def to_np(x):
  """A private numpy copy of any dense backend's tensor."""
  if hasattr(x, "tensor") and hasattr(x, "edges"):
    x = x.tensor
  if isinstance(x, np.ndarray):
    return np.array(x, copy=True)
  if type(x).__name__ == "Tensor" and hasattr(x, "array"):
    return to_np(x.array)
  if hasattr(x, "todense") and hasattr(x, "sparse_shape"):
    return np.array(x.todense() if x.ndim else x.item(), copy=True)
  if hasattr(x, "numpy"):
    return np.array(x.numpy(), copy=True)
  return np.array(x, copy=True)


def esum(arrays, labels, out):
  """Sum over all labels not in `out` of the product of `arrays`.

  Written without np.einsum's restrictions: labels are arbitrary hashables,
  may repeat on one array (diagonal), and output labels may be missing from
  no array.  Arrays are multiplied pairwise, summing labels that nobody else
  needs."""
  ops = []
  for a, l in zip(arrays, labels):
    a = np.asarray(a)
    l = list(l)
    assert a.ndim == len(l), (a.shape, l)
    a, l = _diag(a, l)
    ops.append((a, l))
  out = list(out)
  if not ops:
    return np.array(1.0)
  while True:
    # sum labels appearing on a single operand and not in the output
    for i, (a, l) in enumerate(ops):
      others = set(itertools.chain(out, *[m for j, (_, m) in enumerate(ops)
                                          if j != i]))
      drop = [k for k, x in enumerate(l) if x not in others]
      if drop:
        a = a.sum(axis=tuple(drop))
        l = [x for k, x in enumerate(l) if k not in drop]
        ops[i] = (a, l)
    if len(ops) == 1:
      break
    best = None
    for i in range(len(ops)):
      for j in range(i + 1, len(ops)):
        li, lj = ops[i][1], ops[j][1]
        shared = len(set(li) & set(lj))
        size = len(set(li) | set(lj))
        key = (-min(shared, 1), size)
        if best is None or key < best[0]:
          best = (key, i, j)
    _, i, j = best
    (a, la), (b, lb) = ops[i], ops[j]
    labs = list(dict.fromkeys(la + lb))
    num = {x: k for k, x in enumerate(labs)}
    others = set(itertools.chain(out, *[m for k, (_, m) in enumerate(ops)
                                        if k not in (i, j)]))
    keep = [x for x in labs if x in others]
    c = np.einsum(a, [num[x] for x in la], b, [num[x] for x in lb],
                  [num[x] for x in keep])
    ops = [o for k, o in enumerate(ops) if k not in (i, j)] + [(c, keep)]
  a, l = ops[0]
  return np.transpose(a, [l.index(x) for x in out]) if out else a


def _diag(a, l):
  while len(set(l)) < len(l):
    for x in l:
      pos = [k for k, y in enumerate(l) if y == x]
      if len(pos) > 1:
        a = np.diagonal(a, axis1=pos[0], axis2=pos[1])
        l = [y for k, y in enumerate(l) if k not in pos[:2]] + [x]
        break
  return a, l


def delta(rank, dim, dtype=np.float64):
  a = np.zeros((dim,) * rank, dtype=dtype)
  for i in range(dim):
    a[(i,) * rank] = 1
  return a


def network_value(nodes, out_edges):
  """Direct sum over the network's joined indices, axes = `out_edges`.

  Reads only tensors and edge objects (each edge object is one label)."""
  nodes = list(nodes)
  return esum([to_np(n.tensor) for n in nodes],
              [[id(e) for e in n.edges] for n in nodes],
              [id(e) for e in out_edges])


class Frozen:
  """Monitor: the observed arrays/lists keep their bits."""

  def __init__(self, **objs):
    self.objs = objs
    self.before = {k: self._snap(v) for k, v in objs.items()}

  @classmethod
  def _snap(cls, v):
    if isinstance(v, np.ndarray):
      return ("nd", v.shape, v.dtype, v.strides, v.tobytes())
    if isinstance(v, (list, tuple)):
      return (type(v).__name__, len(v), tuple(cls._snap(x) for x in v))
    if isinstance(v, dict):
      return ("dict", tuple((repr(k), cls._snap(x)) for k, x in v.items()))
    if hasattr(v, "numpy") and not hasattr(v, "tensor"):
      a = np.asarray(v.numpy())
      return ("tf", a.shape, a.dtype, a.tobytes())
    if type(v).__module__.startswith("jax"):
      a = np.asarray(v)
      return ("jax", a.shape, a.dtype, a.tobytes())
    if type(v).__name__ == "Tensor" and hasattr(v, "array"):
      return ("T", cls._snap(v.array))
    if type(v).__name__ in ("BlockSparseTensor", "ChargeArray"):
      from tnv import sym
      return sym.snapshot(v)
    if hasattr(v, "tensor") and hasattr(v, "edges"):
      return ("node", cls._snap(v.tensor), v.name,
              tuple(id(e) for e in v.edges), tuple(v.axis_names))
    if isinstance(v, (int, float, complex, str, bool, type(None), np.generic)):
      return repr(v)
    return ("id", id(v))

  def verify(self, ctx, what):
    for k, v in self.objs.items():
      ctx.stats.obs("mutation_observations")
      if self._snap(v) != self.before[k]:
        ctx.fail("%s modified its input %s" % (what, k))


def set_partitions(items):
  items = list(items)
  if not items:
    yield []
    return
  first, rest = items[0], items[1:]
  for k in range(len(rest) + 1):
    for comb in itertools.combinations(rest, k):
      others = [x for x in rest if x not in comb]
      for p in set_partitions(others):
        yield [[first] + list(comb)] + p
