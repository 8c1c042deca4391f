"""Random finite MPS next to their dense state vectors."""
import numpy as np
import tensornetwork as tn
from tensornetwork.block_sparse import BlockSparseTensor, Index

from tnv import core, nets, sym
from tnv.dense import to_np


def chain(arrays):
  """Dense tensor (D0, d0, ..., dN-1, DN) of a chain of rank-3 arrays."""
  psi = np.asarray(arrays[0])
  for a in arrays[1:]:
    psi = np.tensordot(psi, np.asarray(a), ((psi.ndim - 1,), (0,)))
  return psi


def state(m):
  return chain([to_np(m.get_tensor(i)) for i in range(len(m))])


def tolof(dtype):
  return 5e-4 if np.dtype(dtype) in (np.float32, np.complex64) else 1e-8


def gen_shape(ctx, maxn=6, limit=1500, dmax=3, Dmax=5, edges=0.15):
  while True:
    n = ctx.choice([1, 2, 2, 3, 3, 4, 4, 5, 5, 6][:4 + maxn])
    n = min(n, maxn)
    d = [ctx.choice([1, 2, 2, 2, 3][:2 + dmax]) for _ in range(n)]
    D = [ctx.integers(1, Dmax) for _ in range(n + 1)]
    if not ctx.flip(edges):
      D[0] = D[-1] = 1
    if np.prod(d) * D[0] * D[-1] <= limit:
      return d, D


def gen_dense(ctx, dtype, d, D):
  """Tensor list of controlled structure: generic, with linearly dependent
  bonds, entangled cat states, products, badly scaled."""
  n = len(d)
  kind = ctx.choice(["generic"] * 4 + ["dependent", "cat", "product", "scaled"])
  out = [ctx.array((D[i], d[i], D[i + 1]), dtype) for i in range(n)]
  if kind == "dependent":
    for i in range(n - 1):
      if D[i + 1] > 1:
        r = ctx.integers(1, D[i + 1] - 1)
        out[i] = (out[i].reshape(-1, D[i + 1])[:, :r] @ ctx.array(
            (r, D[i + 1]), dtype)).reshape(out[i].shape)
  elif kind == "cat":
    for i in range(n):
      a = np.zeros_like(out[i])
      for k in range(max(a.shape)):
        a[k % a.shape[0], k % a.shape[1], k % a.shape[2]] += 1
      out[i] = a
  elif kind == "product":
    for i in range(n):
      out[i] = out[i][:1, :, :1] * np.ones_like(out[i])
  elif kind == "scaled":
    for i in range(n):
      out[i] = out[i] * np.asarray(10.0**ctx.integers(-2, 2)).astype(dtype)
  out = [np.ascontiguousarray(a.astype(dtype)) for a in out]
  if ctx.flip(0.2):
    out = [np.asfortranarray(a) for a in out]
  return out, kind


def gen_symmetric(ctx, dtype, n, dmax=3, Dmax=4, g=None, phys=None, edges=0.0):
  """Symmetric tensors whose bond charges can be reached."""
  g = g or sym.group(ctx, 2)
  uniform = ctx.flip()
  q = phys if phys is not None else [
      sym.rand_q(ctx, g, ctx.choice([1, 2, 2, dmax]), 1) for _ in range(n)]
  if uniform and phys is None:
    q = [q[0]] * n
  bonds = [sym.rand_q(ctx, g, 1 if not ctx.flip(edges) else 2, 1)]
  for i in range(n):
    s = sym.reduce_mod(
        g, (bonds[-1][:, None, :] + q[i][None, :, :]).reshape(-1, len(g)))
    k = 1 if i == n - 1 and not ctx.flip(edges) else ctx.integers(1, Dmax)
    bonds.append(s[ctx.rng.integers(0, len(s), size=k)])
  out = []
  for i in range(n):
    t, _ = sym.make(ctx, g, [(bonds[i], False), (q[i], False),
                             (bonds[i + 1], True)], [1, 1, 1], dtype)
    out.append(t)
  return out, g, q


def pick_backend(ctx):
  return ctx.choice(["numpy"] * 12 + ["tensorflow"] * 2 + ["jax"] +
                    ["symmetric"] * 5)


def gen_tensors(ctx, backend=None, maxn=6, edges=0.15, limit=1500):
  """(backend, dtype, tensors as given to the constructor, description)."""
  backend = backend or pick_backend(ctx)
  dtype = ctx.choice([np.float64, np.float64, np.complex128, np.complex128] +
                     ([np.float32, np.complex64] if backend == "numpy" else []))
  if backend == "symmetric":
    for _ in range(50):
      n = ctx.integers(1, min(maxn, 5))
      ts, g, _ = gen_symmetric(ctx, dtype, n, edges=edges)
      psi = chain([to_np(t) for t in ts])
      if np.linalg.norm(psi) > 1e-3 and psi.size <= limit:
        return backend, dtype, ts, ("sym", [str(x) for x in g])
    raise core.Inconclusive("no non-zero symmetric state")
  if backend == "jax":
    maxn = min(maxn, 3)
  for _ in range(50):
    d, D = gen_shape(ctx, maxn=maxn, edges=edges, limit=limit)
    ts, kind = gen_dense(ctx, dtype, d, D)
    psi = chain(ts)
    if np.linalg.norm(psi) > 1e-6 * np.prod(
        [np.linalg.norm(t) for t in ts]) and psi.size <= limit:
      if backend == "numpy" and ctx.flip(0.2):
        for t in ts:
          t.setflags(write=False)
      return backend, dtype, ts, (kind,)
  raise core.Inconclusive("no non-zero state")


def isometries(ctx, m, what, tol, center=None):
  """The canonical form announced by center_position, recomputed."""
  c = m.center_position if center is None else center
  dev = 0.0
  for i in range(len(m)):
    if i == c:
      continue
    a = to_np(m.tensors[i])
    a = a.reshape(-1, a.shape[2]) if i < c else a.reshape(a.shape[0], -1)
    gmat = a.conj().T @ a if i < c else a @ a.conj().T
    ctx.close(gmat, np.eye(len(gmat)), "%s: tensor %d with centre %d is not "
              "%s-isometric" % (what, i, c, "left" if i < c else "right"),
              tol=tol)
    dev += np.linalg.norm(gmat - np.eye(len(gmat)))**2
  return np.sqrt(dev)


def bookkeeping(ctx, m, what, dtype, d):
  """Lengths, dimensions, dtype and centre as reported."""
  ts = [to_np(t) for t in m.tensors]
  ctx.eq(len(m), len(d), what + ": length")
  ctx.eq([int(x) for x in m.physical_dimensions], list(d),
         what + ": physical dimensions")
  want = [ts[0].shape[0]] + [t.shape[2] for t in ts]
  for i in range(len(ts) - 1):
    ctx.eq(ts[i].shape[2], ts[i + 1].shape[0], what + ": bond %d" % (i + 1))
  ctx.eq([int(x) for x in m.bond_dimensions], want,
         what + ": bond dimensions")
  ctx.eq([int(m.bond_dimension(i)) for i in range(len(m) + 1)], want,
         what + ": bond_dimension")
  for t in m.tensors:
    ctx.eq(_np_dtype(t), np.dtype(dtype), what + ": dtype of a tensor")
  ctx.eq(_np_dtype(m), np.dtype(dtype), what + ": dtype")


def _np_dtype(t):
  x = t.dtype
  return np.dtype(x.as_numpy_dtype if hasattr(x, "as_numpy_dtype") else x)


def snapshot(m):
  return ([to_np(t).copy() for t in m.tensors], m.center_position)


def untouched(ctx, m, snap, what):
  ts, c = snap
  ctx.eq(m.center_position, c, what + " changed the centre")
  ctx.eq(len(m.tensors), len(ts), what + " changed the length")
  for i, (a, b) in enumerate(zip(m.tensors, ts)):
    ctx.check(np.array_equal(to_np(a), b), "%s changed tensor %d", what, i)
