"""Block-sparse tensors next to an independent dense model.

The model keeps explicit integer charge arrays per elementary leg and a dense
numpy array; nothing in it calls the library."""
import numpy as np
from tensornetwork.block_sparse import (BlockSparseTensor, ChargeArray, Index,
                                        U1Charge, Z2Charge, ZNCharge,
                                        BaseCharge)

_ZN = {n: ZNCharge(n) for n in (2, 3, 4, 5, 7, 151, 211)}


def group(ctx, maxsym=3):
  """A random symmetry: list of None (U1), 'Z2' or n (ZN)."""
  k = ctx.choice([1, 1, 1, 2, 2, 3][:3 + maxsym] if maxsym <= 3 else
                 [1, 1, 2, 2, 3, 4, 5, maxsym])
  return [ctx.choice([None, None, "Z2", 3, 4, 5]) for _ in range(k)]


def mods(g):
  return [None if x is None else 2 if x == "Z2" else x for x in g]


def ctype(x):
  return U1Charge if x is None else Z2Charge if x == "Z2" else _ZN[x]


def rand_q(ctx, g, dim, spread=None):
  """A (dim, nsym) integer array of group elements."""
  cols = []
  for m in mods(g):
    if m is None:
      w = spread if spread is not None else ctx.choice([0, 1, 1, 2, 3])
      off = ctx.choice([0, 0, 0, 1, -2])
      cols.append(ctx.rng.integers(-w, w + 1, size=dim) + off)
    else:
      cols.append(ctx.rng.integers(0, m, size=dim))
  q = np.array(cols).reshape(len(g), dim).T
  if dim and ctx.flip(0.2):
    q = q[np.lexsort(q.T)]
  return np.ascontiguousarray(q).astype(np.int64)


def make_charge(ctx, g, q, dtype=np.int16):
  """The library's charge object for q, built in one of several ways."""
  q = np.asarray(q)
  style = ctx.integers(0, 3)
  if len(g) == 1 and style <= 1:
    return ctype(g[0])(q[:, 0].astype(dtype) if style else
                       list(int(x) for x in q[:, 0]))
  if len(g) == 1 and style == 2 and len(q):
    u, inv = np.unique(q[:, 0], return_inverse=True)
    if ctx.flip():            # any order of the unique charges
      p = np.array(ctx.perm(len(u)), dtype=int)
      u, inv = u[p], np.argsort(p)[inv]
    if ctx.flip(0.3):         # and charges that do not occur
      extra = np.setdiff1d(np.arange(mods(g)[0] or 6), u)[:ctx.integers(0, 3)]
      at = ctx.integers(0, len(u))
      u = np.concatenate([u[:at], extra, u[at:]])
      inv = np.where(inv < at, inv, inv + len(extra))
    return ctype(g[0])(u.astype(dtype), charge_labels=inv.astype(np.int16))
  if style <= 1 and len(g) > 1:
    c = ctype(g[0])(q[:, 0].astype(dtype))
    for k in range(1, len(g)):
      c = c @ ctype(g[k])(q[:, k].astype(dtype))
    return c
  if style == 2 and len(q):
    u, inv = np.unique(q, axis=0, return_inverse=True)
    p = np.array(ctx.perm(len(u)), dtype=int)
    u, inv = u[p], np.argsort(p)[np.ravel(inv)]
    if ctx.flip(0.3):
      u = np.concatenate([u, reduce_mod(g, u[:1] + 1)]) if not np.any(
          np.all(u == reduce_mod(g, u[:1] + 1), axis=1)) else u
    return BaseCharge(u.astype(dtype), charge_labels=inv.astype(np.int16),
                      charge_types=[ctype(x) for x in g])
  return BaseCharge(q.astype(dtype), charge_types=[ctype(x) for x in g])


def reduce_mod(g, q):
  q = np.array(q, dtype=np.int64, copy=True)
  for k, m in enumerate(mods(g)):
    if m is not None:
      q[..., k] %= m
  return q


def total(g, legs):
  """Total charge of every entry, flow True counts negatively."""
  ns = len(g)
  tot = np.zeros((1, ns), dtype=np.int64)
  for q, f in legs:
    tot = (tot[:, None, :] + (-1 if f else 1) * q[None, :, :]).reshape(-1, ns)
  return reduce_mod(g, tot)


def mask(g, legs):
  t = total(g, legs)
  return np.all(t == 0, axis=1).reshape([len(q) for q, _ in legs])


class Model:
  """legs: [(q, flow)] in axis order; part: elementary legs per axis;
  dense: numpy array with one axis per elementary leg."""

  def __init__(self, g, legs, part, dense):
    self.g, self.legs, self.part, self.dense = g, list(legs), list(part), dense
    assert sum(part) == len(legs) == dense.ndim

  @property
  def ndim(self):
    return len(self.part)

  def groups(self):
    out, s = [], 0
    for p in self.part:
      out.append(list(range(s, s + p)))
      s += p
    return out

  @property
  def shape(self):
    return tuple(int(np.prod([len(self.legs[i][0]) for i in gr], dtype=int))
                 for gr in self.groups())

  def todense(self):
    return self.dense.reshape(self.shape)

  def transpose(self, perm):
    gr = self.groups()
    flat = [i for p in perm for i in gr[p]]
    return Model(self.g, [self.legs[i] for i in flat],
                 [self.part[p] for p in perm],
                 np.transpose(self.dense, flat) if flat else self.dense)

  def regroup(self, part):
    return Model(self.g, self.legs, part, self.dense)

  def conj(self):
    return Model(self.g, [(q, not f) for q, f in self.legs], self.part,
                 np.conj(self.dense))

  def with_dense(self, d):
    return Model(self.g, self.legs, self.part, d)

  def axis_charges(self, ax):
    gr = self.groups()[ax]
    return total(self.g, [self.legs[i] for i in gr])


def rand_legs(ctx, g, n, dims=(1, 2, 2, 3, 3, 4), empty=0.03):
  legs = []
  for _ in range(n):
    d = 0 if ctx.flip(empty) else ctx.choice(dims)
    legs.append((rand_q(ctx, g, d), ctx.flip()))
  return legs


def rand_part(ctx, n):
  part = []
  while n:
    p = ctx.integers(1, n) if ctx.flip(0.35) else 1
    part.append(p)
    n -= p
  return part


def make(ctx, g, legs, part=None, dtype=None, dense=None, charges=None):
  """A BlockSparseTensor and its model."""
  part = part if part is not None else rand_part(ctx, len(legs))
  dtype = dtype or ctx.choice([np.float64, np.complex128])
  shape = [len(q) for q, _ in legs]
  if dense is None:
    dense = ctx.array(shape, dtype)
  dense = np.where(mask(g, legs), dense, np.zeros((), dense.dtype))
  m = Model(g, legs, part, dense)
  charges = charges or [make_charge(ctx, g, q) for q, _ in legs]
  idx = [Index([charges[i] for i in gr], [legs[i][1] for i in gr])
         for gr in m.groups()]
  t = BlockSparseTensor.fromdense(idx, m.todense())
  return t, m


def scramble(ctx, t, m, steps=None):
  """Random value-preserving layout changes applied to both."""
  for _ in range(ctx.integers(0, 4) if steps is None else steps):
    kind = ctx.choice(["tr", "tr", "shuffle", "reshape", "cont", "copy"])
    if kind in ("tr", "shuffle"):
      p = ctx.perm(m.ndim)
      t = t.transpose(p, shuffle=(kind == "shuffle"))
      m = m.transpose(p)
    elif kind == "reshape":
      if 0 in m.shape or not m.legs:
        continue
      t, m = reshape(ctx, t, m)
    elif kind == "cont":
      t = t.contiguous()
    else:
      t = t.copy()
  return t, m


def reshape(ctx, t, m):
  """Reshapes to a random regrouping whose sizes identify it."""
  part = rand_part(ctx, len(m.legs))
  new = m.regroup(part)
  got = t.reshape([Index([make_charge(ctx, m.g, m.legs[i][0]) for i in gr],
                         [m.legs[i][1] for i in gr]) if ctx.flip(0.2) else d
                   for gr, d in zip(new.groups(), new.shape)])
  # size-1 legs can be attributed to either neighbour: read the grouping
  return got, m.regroup([len(c) for c in got.charges])


def verify(ctx, t, m, what, dtype=None):
  """Monitor: t is charge conserving and is the block-sparse form of m."""
  if m.ndim == 0:
    ctx.close(np.asarray(t.item() if hasattr(t, "item") else t),
              m.dense.reshape(()), what)
    if isinstance(t, ChargeArray):
      ctx.eq((t.shape, t.ndim, int(t.size), tuple(t.sparse_shape)),
             ((), 0, 1, ()), what + ": scalar metadata")
      ctx.close(t.todense(), m.dense.reshape(()), what + ": dense form")
    return
  ctx.eq(tuple(int(x) for x in t.shape), m.shape, what + ": shape")
  ctx.eq(int(t.ndim), m.ndim, what + ": ndim")
  ctx.eq(int(t.size), int(np.prod(m.shape, dtype=int)), what + ": size")
  check_meta(ctx, t, m, what)
  d = np.asarray(t.todense())
  if dtype is not None:
    ctx.eq(np.dtype(t.dtype), np.dtype(dtype), what + ": dtype")
    ctx.eq(d.dtype, np.dtype(dtype), what + ": dtype of the dense form")
  ctx.close(d, m.todense(), what)
  off = d.reshape([len(q) for q, _ in m.legs])[~mask(m.g, m.legs)]
  ctx.check(not np.any(off), "%s: not charge conserving", what)
  ctx.obs("tensors_verified")
  ctx.stats.obs("nonzeros", int(np.count_nonzero(d)))


def check_meta(ctx, t, m, what):
  """Charges and flows per axis agree with the model."""
  for ax, gr in enumerate(m.groups()):
    cs, fs = t.charges[ax], t.flows[ax]
    ctx.eq((len(cs), len(fs)), (len(gr), len(gr)), what + ": elementary legs")
    for c, f, i in zip(cs, fs, gr):
      q, flow = m.legs[i]
      ctx.check(np.array_equal(np.asarray(c.charges), q) and
                bool(f) == bool(flow),
                "%s: axis %d carries charges %s flow %s, expected %s flow %s",
                what, ax, np.asarray(c.charges).tolist(), f, q.tolist(), flow)
  sp = t.sparse_shape
  ctx.eq(len(sp), m.ndim, what + ": sparse_shape")
  for ax in range(m.ndim):
    ctx.eq(int(sp[ax].dim), m.shape[ax], what + ": sparse_shape dimension")
    ctx.check(np.array_equal(reduce_mod(m.g, sp[ax].charges.charges),
                             m.axis_charges(ax)),
              "%s: sparse_shape charges of axis %d", what, ax)


def snapshot(t):
  """Layout-independent identity of a tensor's value, for Frozen."""
  d = np.asarray(t.todense())
  meta = tuple((tuple(np.asarray(c.charges).tobytes() for c in cs),
                tuple(bool(f) for f in fs))
               for cs, fs in zip(t.charges, t.flows))
  return (type(t).__name__, tuple(int(x) for x in t.shape), str(d.dtype),
          d.tobytes(), meta)


def axis_q(t, ax):
  """Fused (flow-signed) integer charges of an axis, computed independently."""
  cs, fs = t.charges[ax], t.flows[ax]
  g = [None] * cs[0].num_symmetries
  return total(g, [(np.asarray(c.charges).astype(np.int64), bool(f))
                   for c, f in zip(cs, fs)])


def many(ctx, lo=128, hi=180, square=False):
  """A symmetry and the legs of a matrix with more than a hundred sectors:
  (group, row legs, column legs)."""
  g = ctx.choice([[None], [None], [None, None], [151], [211], [None, "Z2"],
                  ["Z2", 151]])
  n = ctx.integers(lo, hi)
  big = [k for k, m in enumerate(mods(g)) if m is None or m > 100]

  def spread(dim, step=1):
    q = rand_q(ctx, g, dim, spread=0)
    for k in big:
      m = mods(g)[k]
      base = ctx.rng.permutation(dim) * step
      q[:, k] = (base - ctx.integers(0, 40)) if m is None else base % m
    if ctx.flip(0.3):
      q = q[np.lexsort(q.T)]
    return q

  if square or ctx.flip(0.5):
    rows = [(spread(n), ctx.flip())]
  else:
    d = ctx.integers(9, 14)
    rows = [(spread(d), False), (spread(n // d + 1, d), False)]
    if ctx.flip():
      rows = rows[::-1]
  tot = total(g, rows)
  if square:
    return g, rows, [(q, not f) for q, f in rows]
  f = ctx.flip()
  pick = tot[ctx.rng.permutation(len(tot))[:n]]
  if ctx.flip(0.4):
    pick = np.concatenate([pick, pick[:ctx.integers(1, 9)]])
  return g, rows, [(reduce_mod(g, pick if f else -pick), f)]
