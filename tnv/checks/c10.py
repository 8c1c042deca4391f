"""C10: block-sparse tensors behave like their dense images."""
import numpy as np
import tensornetwork as tn
import tensornetwork.block_sparse as bs
from tensornetwork.block_sparse import (BlockSparseTensor, ChargeArray, Index,
                                        tensordot, outerproduct)

from tnv import core, sym
from tnv.dense import Frozen

DT = [np.float64, np.complex128, np.float32, np.complex64]


def _new(ctx, n=None, g=None, dtype=None, legs=None, part=None, steps=None):
  g = g if g is not None else sym.group(ctx)
  legs = legs if legs is not None else sym.rand_legs(
      ctx, g, n if n is not None else ctx.integers(1, 5))
  if part is None and any(len(q) == 0 for q, _ in legs):
    part = [1] * len(legs)
  t, m = sym.make(ctx, g, legs, part=part, dtype=dtype or ctx.choice(DT))
  return sym.scramble(ctx, t, m, steps)


def _sig(ctx, *ms):
  for m in ms:
    ctx.sig([str(x) for x in m.g], m.shape, m.part,
            [int(f) for _, f in m.legs], int(np.count_nonzero(m.dense)))


def case_chain(ctx):
  """fromdense, layouts and unary operations."""
  t, m = _new(ctx, steps=0)
  sym.verify(ctx, t, m, "fromdense", m.dense.dtype)
  ctx.note(m.g, m.shape, m.part)
  _sig(ctx, m)
  for _ in range(ctx.integers(1, 5)):
    fr = Frozen(t=t)
    op = ctx.choice(["transpose", "shuffle", "T", "reshape", "contiguous",
                     "copy", "conj", "H", "neg", "mul", "rmul", "div", "pow",
                     "abs", "sign", "sqrt", "like", "flat"])
    t0, m0 = t, m
    if op in ("transpose", "shuffle"):
      p = ctx.perm(m.ndim)
      p2 = ctx.choice([p, tuple(p), np.asarray(p)])
      if ctx.flip():
        t = t.transpose(p2, shuffle=op == "shuffle")
      else:
        t = bs.transpose(t, p2, shuffle=op == "shuffle")
      m = m.transpose(p)
    elif op == "T":
      if m.ndim != 2:
        continue
      t, m = t.T, m.transpose([1, 0])
    elif op == "H":
      if m.ndim != 2:
        continue
      t, m = t.H, m.transpose([1, 0]).conj()
    elif op == "reshape":
      if 0 in m.shape:
        continue
      t, m = sym.reshape(ctx, t, m)
    elif op == "flat":
      if 0 in m.shape:
        continue
      shape = tuple(len(q) for q, _ in m.legs)
      t = bs.reshape(t, shape)
      m = m.regroup([1] * len(m.legs))
    elif op == "contiguous":
      if ctx.flip():
        t = t.contiguous()
      else:
        p = ctx.perm(len(m.legs))
        t = t.contiguous(p)
    elif op == "copy":
      t = t.copy()
    elif op == "conj":
      t, m = (t.conj() if ctx.flip() else bs.conj(t)), m.conj()
    elif op == "neg":
      t, m = -t, m.with_dense(-m.dense)
    elif op in ("mul", "rmul", "div"):
      s = ctx.choice([2.0, -0.5, 3, 1.5 - 2j, np.float64(0.25),
                      np.complex128(1j), np.float32(2)])
      if op == "mul":
        t = t * s
      elif op == "rmul":
        t = s * t
      else:
        t = t / s
      m = m.with_dense(m.dense / s if op == "div" else m.dense * s)
      if op == "rmul" and isinstance(s, np.generic):
        # numpy decides the dtype before the tensor sees the scalar
        m = m.with_dense(m.dense.astype(t.dtype))
    elif op == "pow":
      e = ctx.choice([1, 2, 3])
      t, m = t ** e, m.with_dense(m.dense ** e)
    elif op == "abs":
      t, m = bs.abs(t), m.with_dense(np.abs(m.dense))
    elif op == "sign":
      if m.dense.dtype.kind == "c":
        continue
      t, m = bs.sign(t), m.with_dense(np.sign(m.dense))
    elif op == "sqrt":
      t = bs.sqrt(bs.abs(t))
      m = m.with_dense(np.sqrt(np.abs(m.dense)))
    else:
      which = ctx.choice(["ones", "zeros", "randn", "random", "empty"])
      one = m.with_dense(sym.mask(m.g, m.legs).astype(m.dense.dtype))
      r = getattr(bs, which + "_like")(t)
      ctx.eq(np.dtype(r.dtype), m.dense.dtype, which + "_like dtype")
      if which in ("ones", "zeros"):
        sym.verify(ctx, r, one if which == "ones" else
                   m.with_dense(0 * m.dense), which + "_like", m.dense.dtype)
      else:
        sym.check_meta(ctx, r, m, which + "_like")
        d = np.asarray(r.todense()).reshape(m.dense.shape)
        off = d[~sym.mask(m.g, m.legs)]
        ctx.check(not np.any(off), which + "_like is not charge conserving")
        if which == "random":
          x = np.stack([d.real.ravel(), d.imag.ravel()])
          ctx.check(np.all((x >= 0) & (x <= 1)), "random_like range")
      t = t0
    ctx.sig(op)
    ctx.note(op)
    fr.verify(ctx, op)
    sym.verify(ctx, t, m, op)
    if np.max(np.abs(m.dense), initial=0) > 1e3:
      break
    nd = np.linalg.norm(m.dense.ravel())
    ctx.close(bs.norm(t), nd, "norm after " + op, shape=False)


def case_binary(ctx):
  """Addition and subtraction of tensors in any two layouts."""
  g = sym.group(ctx)
  t1, m1 = _new(ctx, g=g, n=ctx.integers(1, 4))
  # the same legs, stored in a different order
  n = len(m1.legs)
  p = ctx.perm(n)
  dense2 = ctx.array(m1.dense.shape, ctx.choice(DT))
  inv = [p.index(i) for i in range(n)]
  t2, m2 = sym.make(ctx, g, [m1.legs[i] for i in p], part=[1] * n,
                    dense=np.transpose(dense2, p))
  t2, m2 = t2.transpose(inv), m2.transpose(inv)
  if 0 not in m1.shape:
    t2 = t2.reshape(m1.shape)
    m2 = m2.regroup([len(c) for c in t2.charges])
    if m2.part != m1.part:
      raise core.Inconclusive("size-1 legs grouped differently")
  elif m1.part != [1] * n:
    raise core.Inconclusive("empty fused leg")
  ctx.note(m1.g, m1.shape, m1.part)
  _sig(ctx, m1)
  same_prov = all(c1 is c2 for a, b in zip(t1.charges, t2.charges)
                  for c1, c2 in zip(a, b))
  fr = Frozen(t1=t1, t2=t2)
  for op in ("add", "sub"):
    r = t1 + t2 if op == "add" else t1 - t2
    d = m1.dense + m2.dense if op == "add" else m1.dense - m2.dense
    fr.verify(ctx, op)
    sym.verify(ctx, r, m1.with_dense(d), op, d.dtype)
  sym.verify(ctx, t1 + t1, m1.with_dense(2 * m1.dense), "t + t")
  fr.verify(ctx, "t + t")
  ctx.obs("sums")
  del same_prov
  # rejections
  bad = ctx.choice(["flow", "charge", "rank", "type", "scalar"])
  i = ctx.integers(0, n - 1)
  legs = [(q.copy(), f) for q, f in m1.legs]
  if bad == "flow":
    legs[i] = (legs[i][0], not legs[i][1])
  elif bad == "charge":
    if not len(legs[i][0]) or g[0] is not None:
      return
    legs[i][0][ctx.integers(0, len(legs[i][0]) - 1), 0] += 1
  elif bad == "rank":
    legs.append((np.zeros((1, len(g)), dtype=np.int64), ctx.flip()))
  if bad in ("flow", "charge", "rank"):
    part = m1.part + ([1] if bad == "rank" else [])
    t3, _ = sym.make(ctx, g, legs, part=part)
    ctx.rejects(lambda: t1 + t3, "adding a tensor with another " + bad)
    ctx.rejects(lambda: t1 - t3, "subtracting a tensor with another " + bad)
  elif bad == "scalar":
    ctx.rejects(lambda: t1 + 1.0, "adding a number", (TypeError,))
    ctx.rejects(lambda: t1 - np.ones(m1.shape), "subtracting an array")
    ctx.rejects(lambda: t1 * np.ones(m1.shape), "multiplying by an array")
  fr.verify(ctx, "a rejected operation")


def _pair(ctx, g=None, big=False):
  """Two tensors with matching contracted axes."""
  g = g if g is not None else sym.group(ctx)
  nc = ctx.choice([0, 1, 1, 1, 2, 2, 3])
  nf1, nf2 = ctx.integers(0, 3), ctx.integers(0, 3)
  if nc + nf1 == 0 or nc + nf2 == 0:
    nf1 = nf2 = 1
  dims = (1, 2, 2, 3, 3, 4) if not big else (3, 6, 9, 14)
  mk = lambda k: sym.rand_legs(ctx, g, k, dims=dims)
  # contracted axes are groups of elementary legs
  cg = [mk(ctx.choice([1, 1, 1, 2])) for _ in range(nc)]
  if big:
    cg = cg[:2]
    nf1, nf2 = min(nf1, 2), min(nf2, 2)
  nc = len(cg)
  f1 = [mk(ctx.choice([1, 1, 2])) for _ in range(nf1)]
  f2 = [mk(ctx.choice([1, 1, 2])) for _ in range(nf2)]
  ax1 = [("c", i) for i in range(nc)] + [("f", i) for i in range(nf1)]
  ax2 = [("c", i) for i in range(nc)] + [("f", i) for i in range(nf2)]
  ax1, ax2 = ctx.shuffled(ax1), ctx.shuffled(ax2)
  l1 = [cg[i] if k == "c" else f1[i] for k, i in ax1]
  l2 = [[(q, not f) for q, f in cg[i]] if k == "c" else f2[i] for k, i in ax2]
  size = lambda l: int(np.prod([len(q) for x in l for q, _ in x], dtype=int))
  if max(size(l1), size(l2)) > (60000 if big else 6000):
    raise core.Inconclusive("too large")
  out = []
  for l in (l1, l2):
    legs = [x for y in l for x in y]
    # store in a different elementary order, then bring the axes into place
    n = len(legs)
    p = ctx.perm(n) if ctx.flip(0.6) else list(range(n))
    dense = ctx.array([len(q) for q, _ in legs], ctx.choice(DT))
    inv = [p.index(i) for i in range(n)]
    if n:
      t, m = sym.make(ctx, g, [legs[i] for i in p], part=[1] * n,
                      dense=np.transpose(dense, p))
      t, m = t.transpose(inv, shuffle=ctx.flip(0.2)), m.transpose(inv)
    part = [len(x) for x in l]
    if part != [1] * n:
      m = m.regroup(part)
      if 0 in m.shape:
        raise core.Inconclusive("empty fused leg")
      t = t.reshape(m.shape)
      if [len(c) for c in t.charges] != part:
        raise core.Inconclusive("size-1 legs grouped differently")
    out.append((t, m))
  order = ctx.perm(nc)
  a1 = [ax1.index(("c", i)) for i in order]
  a2 = [ax2.index(("c", i)) for i in order]
  return g, out[0], out[1], a1, a2


def dot_model(m1, m2, a1, a2):
  """Model of tensordot."""
  g1, g2 = m1.groups(), m2.groups()
  free1 = [i for i in range(m1.ndim) if i not in a1]
  free2 = [i for i in range(m2.ndim) if i not in a2]
  d = np.tensordot(m1.todense(), m2.todense(), (list(a1), list(a2)))
  legs = [m1.legs[i] for a in free1 for i in g1[a]] + \
         [m2.legs[i] for a in free2 for i in g2[a]]
  part = [m1.part[a] for a in free1] + [m2.part[a] for a in free2]
  return sym.Model(m1.g, legs, part, d.reshape([len(q) for q, _ in legs]))


def case_dot(ctx, big=False):
  g, (t1, m1), (t2, m2), a1, a2 = _pair(ctx, big=big)
  ctx.note(g, m1.shape, m1.part, m2.shape, m2.part, a1, a2)
  _sig(ctx, m1, m2)
  ctx.sig(a1, a2)
  fr = Frozen(t1=t1, t2=t2)
  want = dot_model(m1, m2, a1, a2)
  dt = np.result_type(m1.dense, m2.dense)
  form = ctx.choice(["lists", "tuples", "arrays"])
  if form == "lists":
    axes = [list(a1), list(a2)]
  elif form == "tuples":
    axes = (tuple(a1), tuple(a2))
  else:
    axes = [np.asarray(a1, dtype=int), np.asarray(a2, dtype=int)]
  r = tensordot(t1, t2, axes)
  fr.verify(ctx, "tensordot")
  sym.verify(ctx, r, want, "tensordot", dt)
  ctx.obs("contractions")
  k = len(a1)
  if k and a1 == list(range(m1.ndim - k, m1.ndim)) and a2 == list(range(k)):
    sym.verify(ctx, tensordot(t1, t2, k), want, "tensordot(int)", dt)
    ctx.stats.obs("int_axes")
  if m1.ndim <= 2 and m2.ndim <= 2 and a1 == [m1.ndim - 1] and a2 == [0]:
    sym.verify(ctx, t1 @ t2, want, "@", dt)
    ctx.stats.obs("matmuls")
  if k and a1 == a2:
    pass
  # another contraction order/layout of the same tensors gives the same
  s1, s2 = t1.contiguous(), t2.contiguous()
  sym.verify(ctx, tensordot(s1, s2, axes), want, "tensordot (contiguous)", dt)
  if k:
    neg = [[a - m1.ndim for a in a1], list(a2)]
    try:
      r = tensordot(t1, t2, neg)
    except (ValueError, IndexError):
      ctx.stats.obs("negative_axes_rejected")
    else:
      sym.verify(ctx, r, want, "tensordot with negative axes", dt)
  _dot_rejections(ctx, g, t1, m1, t2, m2, a1, a2)
  fr.verify(ctx, "a rejected tensordot")


def case_many(ctx):
  """Tensors with more than a hundred charge sectors: layout changes, sums,
  products, traces and diagonals."""
  g, rows, cols = sym.many(ctx)
  legs = rows + cols
  ctx.obs("many_sector_tensors")
  n = len(legs)
  dense = ctx.array([len(q) for q, _ in legs], ctx.choice(DT))
  p = ctx.perm(n) if ctx.flip(0.6) else list(range(n))
  inv = [p.index(i) for i in range(n)]
  t, m = sym.make(ctx, g, [legs[i] for i in p], part=[1] * n,
                  dense=np.transpose(dense, p))
  t, m = t.transpose(inv, shuffle=ctx.flip(0.2)), m.transpose(inv)
  ctx.note(g, m.shape, p)
  _sig(ctx, m)
  sym.verify(ctx, t, m, "many sectors", dense.dtype)
  # the matrix, its adjoint and their product
  part = [len(rows), 1]
  mm = m.regroup(part)
  t2 = t.reshape(mm.shape) if n > 2 else t
  sym.verify(ctx, t2, mm, "reshape", dense.dtype)
  c = t2.conj()
  sym.verify(ctx, c, mm.conj(), "conj", dense.dtype)
  axes = ctx.choice([([1], [1]), ([0], [0])])
  r = tensordot(t2, c, axes)
  want = dot_model(mm, mm.conj(), *axes)
  sym.verify(ctx, r, want, "tensordot", dense.dtype)
  ctx.obs("contractions")
  r, want = sym.scramble(ctx, r, want)
  sym.verify(ctx, r, want, "rearranged product", dense.dtype)
  # elementwise over tensors in different layouts
  k = ctx.perm(n)
  s = t.transpose(k, shuffle=True).transpose([k.index(i) for i in range(n)])
  sym.verify(ctx, t + s, m.with_dense(2 * m.dense), "sum", dense.dtype)
  full = ctx.perm(2)
  ctx.close(np.asarray(tensordot(t2, c, (full, full)).item()),
            np.sum(mm.todense() * np.conj(mm.todense())), "inner product")
  d = bs.diag(t2)
  q = np.asarray(d.charges[0][0].charges).astype(np.int64)
  rq = mm.axis_charges(0)
  cq = sym.reduce_mod(g, -mm.axis_charges(1))
  a = mm.todense()
  for u in np.unique(np.concatenate([q, rq]), axis=0):
    blk = a[np.ix_(np.all(rq == u, axis=1), np.all(cq == u, axis=1))]
    ctx.close(np.asarray(d.data)[np.all(q == u, axis=1)], np.diag(blk),
              "diagonal of a sector")


def _dot_rejections(ctx, g, t1, m1, t2, m2, a1, a2):
  if not a1:
    return
  kind = ctx.choice(["flow", "charge", "length", "range", "dup", "group"])
  j = ctx.integers(0, len(a1) - 1)
  leg = m2.groups()[a2[j]][0]
  legs = [(q.copy(), f) for q, f in m2.legs]
  if kind == "flow":
    legs[leg] = (legs[leg][0], not legs[leg][1])
    t3, _ = sym.make(ctx, g, legs, part=m2.part)
    ctx.rejects(lambda: tensordot(t1, t3, [a1, a2]), "tensordot over equal "
                "flows", (ValueError,))
  elif kind == "charge":
    if len(legs[leg][0]) == 0:
      return
    q = legs[leg][0]
    r = ctx.integers(0, len(q) - 1)
    m = sym.mods(g)[0]
    q[r, 0] = (q[r, 0] + 1) % m if m else q[r, 0] + 1
    t3, _ = sym.make(ctx, g, legs, part=m2.part)
    ctx.rejects(lambda: tensordot(t1, t3, [a1, a2]), "tensordot over unequal "
                "charges", (ValueError,))
  elif kind == "length":
    ctx.rejects(lambda: tensordot(t1, t2, [a1, a2[:-1]]), "tensordot with "
                "axes of different lengths", (ValueError,))
  elif kind == "range":
    b = list(a1)
    b[j] = m1.ndim + ctx.integers(0, 2)
    ctx.rejects(lambda: tensordot(t1, t2, [b, a2]), "tensordot over a missing "
                "axis", (ValueError, IndexError))
    b = list(a1)
    b[j] = -m1.ndim - 1
    ctx.rejects(lambda: tensordot(t1, t2, [b, a2]), "tensordot over a missing "
                "negative axis", (ValueError, IndexError))
    ctx.rejects(lambda: tensordot(t1, t2, [0, 0]), "tensordot over [0, 0]",
                (ValueError,))
    b = list(a2)
    b[j] = m2.ndim
    ctx.rejects(lambda: tensordot(t1, t2, [a1, b]), "tensordot over a missing "
                "axis", (ValueError, IndexError))
  elif kind == "dup":
    ctx.rejects(lambda: tensordot(t1, t2, [a1 + [a1[0]], a2 + [a2[0]]]),
                "tensordot over a repeated axis", (ValueError,))
  elif kind == "group":
    i = m2.groups()[a2[j]]
    if len(i) == 1 or 0 in m2.shape:
      return
    t3 = t2.reshape([len(q) for q, _ in m2.legs])
    b2 = [m2.groups()[a][0] for a in a2]
    ctx.rejects(lambda: tensordot(t1, t3, [a1, b2]), "tensordot of a fused "
                "with an elementary leg", (ValueError,))
  ctx.stats.obs("dot_rejections")


def case_mixed(ctx):
  """Tensors of different symmetries cannot be contracted or added."""
  g1, g2 = ctx.choice([([None], ["Z2"]), (["Z2"], [3]), ([None], [4]),
                       ([3], [5]), ([None, "Z2"], ["Z2", None]),
                       ([None], [None, None])])
  d = ctx.integers(1, 4)
  q = ctx.rng.integers(0, 2, size=(d, len(g1)))
  q2 = q if len(g1) == len(g2) else np.repeat(q, 2, axis=1)
  f = ctx.flip()
  a, b = sym.rand_legs(ctx, g1, 1)[0], sym.rand_legs(ctx, g2, 1)[0]
  t1, m1 = sym.make(ctx, g1, [a, (q, f)], part=[1, 1])
  t2, _ = sym.make(ctx, g2, [(q2, not f), b], part=[1, 1])
  ctx.note(g1, g2)
  ctx.sig(g1, g2, d, f)
  ctx.rejects(lambda: tensordot(t1, t2, [[1], [0]]), "contracting tensors of "
              "different symmetries", (ValueError,))
  ctx.rejects(lambda: t1 @ t2, "@ of different symmetries", (ValueError,))
  t3, _ = sym.make(ctx, g1, [a, (q, f)], part=[1, 1])
  t4, _ = sym.make(ctx, g2, [(np.resize(a[0], (len(a[0]), len(g2))) % 2,
                              a[1]), (q2, f)], part=[1, 1])
  ctx.rejects(lambda: t3 + t4, "adding tensors of different symmetries",
              (ValueError, TypeError))
  ctx.obs("mixed_rejected")


def case_outer(ctx):
  g = sym.group(ctx)
  t1, m1 = _new(ctx, g=g, n=ctx.integers(1, 3))
  t2, m2 = _new(ctx, g=g, n=ctx.integers(1, 3))
  ctx.note(g, m1.shape, m2.shape)
  _sig(ctx, m1, m2)
  d = np.multiply.outer(m1.dense, m2.dense)
  want = sym.Model(g, m1.legs + m2.legs, m1.part + m2.part, d)
  fr = Frozen(t1=t1, t2=t2)
  for what, f in (("outerproduct", lambda: outerproduct(t1, t2)),
                  ("tensordot(0)", lambda: tensordot(t1, t2, 0)),
                  ("tensordot([[],[]])", lambda: tensordot(t1, t2, [[], []]))):
    r = f()
    fr.verify(ctx, what)
    sym.verify(ctx, r, want, what, d.dtype)
  ctx.obs("outer_products")
  # scalars
  tc, mc = sym.make(ctx, g, m1.conj().legs, part=[1] * len(m1.legs),
                    dense=ctx.array(m1.dense.shape, np.complex128))
  if 0 in m1.shape:
    return
  tf = t1.reshape([len(q) for q, _ in m1.legs])
  s = tensordot(tf, tc, [list(range(tf.ndim))] * 2)
  val = np.sum(m1.dense * mc.dense)
  ctx.close(s.item(), val, "full contraction")
  one = sym.Model(g, [], [], np.asarray(val))
  for what, f, k in (("full contraction", lambda: s, 1),
                     ("sum of scalars", lambda: s + s, 2),
                     ("difference of scalars", lambda: s - s, 0),
                     ("multiple", lambda: 3 * s, 3),
                     ("quotient", lambda: s / 2, 0.5),
                     ("negative", lambda: -s, -1),
                     ("copy", lambda: s.copy(), 1),
                     ("contiguous", lambda: s.contiguous(), 1),
                     ("transpose", lambda: s.transpose([]), 1),
                     ("reshape", lambda: s.reshape(()), 1),
                     ("zeros_like", lambda: bs.zeros_like(s), 0),
                     ("outer product", lambda: outerproduct(s, s) / val, 1)):
    if what == "outer product" and abs(val) < 1e-3:
      continue
    sym.verify(ctx, f(), one.with_dense(k * one.dense), "scalar " + what)
  sym.verify(ctx, s.conj(), one.with_dense(np.conj(one.dense)), "scalar conj")
  ctx.close(np.asarray(bs.norm(s)), abs(val), "norm of a scalar", shape=False)
  for what, f in (("scalar outer tensor", lambda: outerproduct(s, t2)),
                  ("tensor outer scalar", lambda: outerproduct(t2, s))):
    sym.verify(ctx, f(), m2.with_dense(val * m2.dense), what)
  ctx.close(outerproduct(s, s).item(), val * val, "scalar outer scalar")
  ctx.stats.obs("scalars")


def case_trace(ctx):
  g = sym.group(ctx)
  n = ctx.integers(0, 2)
  rest = [sym.rand_legs(ctx, g, ctx.choice([1, 1, 2])) for _ in range(n)]
  tr = sym.rand_legs(ctx, g, ctx.choice([1, 1, 2, 3]), empty=0)
  dual = [(q, not f) for q, f in tr]
  axes = ctx.shuffled([("r", i) for i in range(n)] + [("a", 0), ("b", 0)])
  l = [rest[i] if k == "r" else tr if k == "a" else dual for k, i in axes]
  legs = [x for y in l for x in y]
  if int(np.prod([len(q) for q, _ in legs])) > 8000:
    raise core.Inconclusive("too large")
  nl = len(legs)
  p = ctx.perm(nl) if ctx.flip(0.6) else list(range(nl))
  inv = [p.index(i) for i in range(nl)]
  dense = ctx.array([len(q) for q, _ in legs], ctx.choice(DT))
  t, m = sym.make(ctx, g, [legs[i] for i in p], part=[1] * nl,
                  dense=np.transpose(dense, p))
  t, m = t.transpose(inv), m.transpose(inv)
  part = [len(x) for x in l]
  if part != [1] * nl:
    m = m.regroup(part)
    if 0 in m.shape:
      raise core.Inconclusive("empty fused leg")
    t = t.reshape(m.shape)
    if [len(c) for c in t.charges] != part:
      raise core.Inconclusive("size-1 legs grouped differently")
  i, j = axes.index(("a", 0)), axes.index(("b", 0))
  if ctx.flip():
    i, j = j, i
  ctx.note(g, m.shape, m.part, i, j)
  _sig(ctx, m)
  ctx.sig(i, j)
  fr = Frozen(t=t)
  d = np.trace(m.todense(), axis1=i, axis2=j)
  others = [a for a in range(m.ndim) if a not in (i, j)]
  rl = [m.legs[x] for a in others for x in m.groups()[a]]
  ax = ctx.choice([(i, j), [i, j], (i - m.ndim, j - m.ndim), (i, j - m.ndim)])
  if (i, j) == (m.ndim - 2, m.ndim - 1) and ctx.flip():
    r = bs.trace(t)
  else:
    r = bs.trace(t, ax)
  fr.verify(ctx, "trace")
  if not others:
    ctx.close(np.asarray(r), d, "trace")
    ctx.check(np.isscalar(r) or isinstance(r, np.generic),
              "full trace is not a scalar")
  else:
    want = sym.Model(g, rl, [m.part[a] for a in others],
                     d.reshape([len(q) for q, _ in rl]))
    sym.verify(ctx, r, want, "trace")
  ctx.obs("traces")
  # rejections
  bad = [(a, b) for a in range(m.ndim) for b in range(m.ndim) if a != b and
         {a, b} != {i, j} and not _matching(m, a, b)]
  if bad:
    a, b = ctx.choice(bad)
    ctx.rejects(lambda: bs.trace(t, (a, b)), "trace over unmatched axes",
                (ValueError,))
  ctx.rejects(lambda: bs.trace(t, (i, i)), "trace over one axis",
              (ValueError,))
  ctx.rejects(lambda: bs.trace(t, (i, j, i)), "trace over three axes",
              (ValueError,))
  fr.verify(ctx, "a rejected trace")


def _matching(m, a, b):
  ga, gb = m.groups()[a], m.groups()[b]
  return len(ga) == len(gb) and all(
      np.array_equal(m.legs[x][0], m.legs[y][0]) and
      m.legs[x][1] != m.legs[y][1] for x, y in zip(ga, gb))


def _sector_pairs(m, g):
  """For every charge: rows and columns of a matrix in that sector."""
  r = m.axis_charges(0)
  c = sym.reduce_mod(g, -m.axis_charges(1))
  out = {}
  for i, x in enumerate(map(tuple, r)):
    out.setdefault(x, ([], []))[0].append(i)
  for j, x in enumerate(map(tuple, c)):
    if x in out:
      out[x][1].append(j)
  return {k: v for k, v in out.items() if v[0] and v[1]}


def case_diag(ctx):
  g = sym.group(ctx)
  nl = ctx.integers(2, 4)
  k = ctx.integers(1, nl - 1)
  t, m = _new(ctx, g=g, n=nl, part=[1] * nl, steps=0)
  if 0 in m.shape:
    raise core.Inconclusive("empty leg")
  p = ctx.perm(nl)
  t, m = t.transpose(p), m.transpose(p).regroup([k, nl - k])
  t = t.reshape(m.shape)
  if [len(c) for c in t.charges] != m.part:
    raise core.Inconclusive("size-1 legs grouped differently")
  ctx.note(g, m.shape, m.part)
  _sig(ctx, m)
  fr = Frozen(t=t)
  d = bs.diag(t)
  fr.verify(ctx, "diag")
  D = m.todense()
  sec = _sector_pairs(m, g)
  ctx.check(type(d) is ChargeArray, "diag of a matrix is a %s", type(d))
  ctx.eq(d.ndim, 1, "diag ndim")
  q = np.asarray(sym.reduce_mod(g, sym.axis_q(d, 0)))
  vals = np.asarray(d.todense())
  ctx.eq(len(vals), sum(min(len(a), len(b)) for a, b in sec.values()),
         "diag: number of entries")
  for x, (rows, cols) in sec.items():
    got = vals[np.all(q == np.array(x), axis=1)]
    want = np.array([D[i, j] for i, j in zip(rows, cols)])
    ctx.close(got, want, "diag of sector %s" % (x,))
  # diag of a vector is the matrix with that diagonal
  if m.part[0] == 1 and ctx.flip():
    legs = [m.legs[0]]
  else:
    legs = sym.rand_legs(ctx, g, ctx.integers(1, 3), dims=(1, 2, 3), empty=0)
  n = len(legs)
  p = ctx.perm(n)
  vec = ctx.array([len(a) for a, _ in legs], ctx.choice(DT))
  v = ChargeArray(vec, [sym.make_charge(ctx, g, a) for a, _ in legs],
                  [f for _, f in legs])
  if n > 1:
    v = v.transpose(p)
    vec = np.transpose(vec, p)
    legs = [legs[i] for i in p]
    v = v.reshape((vec.size,))
  if [len(c) for c in v.charges] == [n]:
    fr = Frozen(v=v)
    M = bs.diag(v)
    fr.verify(ctx, "diag")
    dual = [(a, not f) for a, f in legs]
    want = sym.Model(g, legs + dual, [n, n],
                     np.diag(vec.ravel()).reshape(vec.shape * 2))
    sym.verify(ctx, M, want, "diag of a vector", vec.dtype)
    ctx.stats.obs("vector_diags")
  t3, _ = _new(ctx, g=g, n=3, part=[1, 1, 1], steps=0)
  ctx.rejects(lambda: bs.diag(t3), "diag of a rank-3 tensor", (ValueError,))
  ctx.obs("diags")


def case_chargearray(ctx):
  """Plain arrays with charges: layout operations on unconstrained data."""
  g = sym.group(ctx)
  n = ctx.integers(1, 4)
  legs = sym.rand_legs(ctx, g, n, empty=0)
  dense = ctx.array([len(q) for q, _ in legs], ctx.choice(DT))
  t = ChargeArray(dense, [sym.make_charge(ctx, g, q) for q, _ in legs],
                  [f for _, f in legs])
  m = sym.Model(g, legs, [1] * n, dense)
  ctx.note(g, m.shape)
  _sig(ctx, m)
  for _ in range(ctx.integers(1, 5)):
    fr = Frozen(t=t)
    op = ctx.choice(["transpose", "reshape", "contiguous", "conj", "H", "T",
                     "sqrt"])
    if op == "transpose":
      p = ctx.perm(m.ndim)
      t, m = t.transpose(p, shuffle=ctx.flip()), m.transpose(p)
    elif op == "reshape":
      t, m = sym.reshape(ctx, t, m)
    elif op == "contiguous":
      t = t.contiguous()
    elif op == "conj":
      t, m = t.conj(), m.conj()
    elif op == "sqrt":
      if m.dense.dtype.kind != "c":
        continue
      t, m = bs.sqrt(t), m.with_dense(np.sqrt(m.dense))
    elif m.ndim == 2:
      if op == "H":
        t, m = t.H, m.transpose([1, 0]).conj()
      else:
        t, m = t.T, m.transpose([1, 0])
    fr.verify(ctx, op)
    ctx.note(op)
    ctx.sig(op)
    ctx.eq(tuple(t.shape), m.shape, op + ": shape")
    sym.check_meta(ctx, t, m, "ChargeArray." + op)
    ctx.close(np.asarray(t.todense()), m.todense(), "ChargeArray." + op)
    ctx.obs("charge_arrays")
  for f in (lambda: t + t, lambda: t - t, lambda: -t, lambda: t * 2,
            lambda: 2 * t, lambda: t / 2, lambda: t ** 2):
    ctx.rejects(f, "arithmetic with a ChargeArray", (NotImplementedError,))


def case_init(ctx):
  """eye, ones, zeros, random initialisers against the mask."""
  g = sym.group(ctx)
  n = ctx.integers(1, 4)
  legs = sym.rand_legs(ctx, g, n)
  part = sym.rand_part(ctx, n)
  gr = sym.Model(g, legs, part, np.zeros([len(q) for q, _ in legs])).groups()
  idx = [Index([sym.make_charge(ctx, g, legs[i][0]) for i in k],
               [legs[i][1] for i in k]) for k in gr]
  dt = ctx.choice(DT)
  ctx.note(g, [len(q) for q, _ in legs], part)
  ctx.sig([str(x) for x in g], [len(q) for q, _ in legs], part, dt)
  msk = sym.mask(g, legs)
  cls = ctx.flip()
  for which in ("ones", "zeros"):
    f = getattr(BlockSparseTensor if cls else bs, which)
    r = f(idx, dtype=dt)
    d = msk.astype(dt) * (which == "ones")
    sym.verify(ctx, r, sym.Model(g, legs, part, d.astype(dt)), which, dt)
  for which in ("randn", "random"):
    f = getattr(BlockSparseTensor if cls else bs, which)
    r = f(idx, dtype=dt)
    d = np.asarray(r.todense()).reshape(msk.shape)
    ctx.eq(d.dtype, np.dtype(dt), which + " dtype")
    m = sym.Model(g, legs, part, d)
    sym.verify(ctx, r, m, which)
    ctx.check(int(np.count_nonzero(d)) == int(msk.sum()),
              "%s: %d nonzeros, expected %d", which, np.count_nonzero(d),
              msk.sum())
  # eye
  k = ctx.integers(1, n)
  col = idx[:k]
  ci = col[0]
  for x in col[1:]:
    ci = ci * x
  lg = [legs[i] for kk in gr[:k] for i in kk]
  dim = int(np.prod([len(q) for q, _ in lg]))
  if dim and dim <= 80:
    e = bs.eye(ci, dtype=dt)
    want = sym.Model(g, lg + [(q, not f) for q, f in lg], [len(lg)] * 2,
                     np.eye(dim, dtype=dt).reshape([len(q) for q, _ in lg] * 2))
    sym.verify(ctx, e, want, "eye", dt)
    ctx.stats.obs("eyes")
  # fromdense ignores entries that are not charge conserving
  x = ctx.array(msk.shape, dt)
  shape = [int(np.prod([len(legs[i][0]) for i in kk], dtype=int)) for kk in gr]
  fr = Frozen(x=x)
  r = BlockSparseTensor.fromdense(idx, x.reshape(shape))
  sym.verify(ctx, r, sym.Model(g, legs, part, x * msk), "fromdense", dt)
  fr.verify(ctx, "fromdense")
  ctx.rejects(lambda: BlockSparseTensor.fromdense(idx, np.zeros(
      [s + 1 for s in shape])), "fromdense of another shape", (ValueError,))
  nz = int(msk.sum())
  chs = [c for i in idx for c in i.flat_charges]
  fl = [f for i in idx for f in i.flat_flows]
  ctx.rejects(lambda: BlockSparseTensor(np.zeros(nz + 1), chs, fl,
                                        check_consistency=True),
              "a wrong number of elements", (ValueError,))
  BlockSparseTensor(np.zeros(nz), chs, fl, check_consistency=True)
  if len(chs) > 1:
    ctx.rejects(lambda: BlockSparseTensor(
        np.zeros(nz), chs, fl, order=[[0]] * len(chs),
        check_consistency=True), "an order that is no permutation",
                (ValueError,))
  ctx.obs("initialised")


def case_item(ctx):
  g = sym.group(ctx)
  n = ctx.integers(1, 3)
  legs = sym.rand_legs(ctx, g, n, dims=(1,), empty=0)
  if ctx.flip(0.6):  # make it charge conserving
    legs.append((sym.reduce_mod(g, np.array(sum((-1 if f else 1) * q
                                                for q, f in legs))), True))
    n += 1
  t, m = sym.make(ctx, g, legs, part=[1] * n)
  ctx.note(g, [q.tolist() for q, _ in legs], [f for _, f in legs])
  ctx.sig([str(x) for x in g], [q.tolist() for q, _ in legs],
          [f for _, f in legs])
  ctx.close(t.item(), m.dense.reshape(()), "item")
  ctx.close(np.asarray(t.todense()).reshape(()), m.dense.reshape(()),
            "todense")
  t2, m2 = _new(ctx, g=g, n=2, part=[1, 1])
  if int(np.prod(m2.shape)) != 1:
    ctx.rejects(t2.item, "item of shape %s" % (m2.shape,), (ValueError,))
  ctx.obs("items")


def case_backend(ctx):
  """The same operations through the symmetric backend's interface."""
  be = tn.backends.backend_factory.get_backend("symmetric")
  g = sym.group(ctx)
  n = ctx.integers(1, 4)
  t, m = _new(ctx, g=g, n=n)
  D = m.todense()
  ctx.note(m.g, m.shape, m.part)
  _sig(ctx, m)
  fr = Frozen(t=t)
  k = m.ndim
  sym.verify(ctx, be.transpose(t), m.transpose(list(range(k))[::-1]),
             "backend.transpose")
  p = ctx.perm(k)
  sym.verify(ctx, be.transpose(t, p), m.transpose(p), "backend.transpose")
  for f in ("abs", "sign"):
    if f == "sign" and m.dense.dtype.kind == "c":
      continue
    sym.verify(ctx, getattr(be, f)(t), m.with_dense(
        getattr(np, f)(m.dense)), "backend." + f)
  sq = be.abs(t)
  sym.verify(ctx, be.sqrt(sq), m.with_dense(np.sqrt(np.abs(m.dense))),
             "backend.sqrt")
  sym.verify(ctx, be.conj(t), m.conj(), "backend.conj")
  ctx.close(be.norm(t), np.linalg.norm(D.ravel()), "backend.norm", shape=False)
  ctx.eq(tuple(be.shape_tuple(t)), m.shape, "backend.shape_tuple")
  ctx.eq(tuple(be.shape_tensor(t)), m.shape, "backend.shape_tensor")
  ctx.eq(int(be.shape_prod(be.shape_tensor(t))), D.size, "backend.shape_prod")
  sp = be.sparse_shape(t)
  ctx.eq([i.dim for i in sp], list(m.shape), "backend.sparse_shape")
  for op, w in (("addition", 2 * m.dense), ("subtraction", 0 * m.dense)):
    sym.verify(ctx, getattr(be, op)(t, t), m.with_dense(w), "backend." + op)
  x = ctx.choice([2, -1.5, 0.25])
  sym.verify(ctx, be.multiply(t, x), m.with_dense(m.dense * x),
             "backend.multiply")
  sym.verify(ctx, be.multiply(x, t), m.with_dense(m.dense * x),
             "backend.multiply")
  sym.verify(ctx, be.divide(t, x), m.with_dense(m.dense / x), "backend.divide")
  s = be.convert_to_tensor(x)
  ctx.eq((s.ndim, s.item()), (0, x), "convert_to_tensor of a number")
  sym.verify(ctx, be.multiply(t, s), m.with_dense(m.dense * x),
             "backend.multiply by a scalar tensor")
  sym.verify(ctx, be.multiply(s, t), m.with_dense(m.dense * x),
             "backend.multiply of a scalar tensor")
  ctx.check(be.convert_to_tensor(t) is t, "convert_to_tensor copies")
  ctx.rejects(lambda: be.convert_to_tensor(np.ones(3)),
              "convert_to_tensor of an array", (TypeError,))
  ctx.close(be.item(s), x, "backend.item")
  for dt in DT:
    ctx.eq(be.eps(dt), np.finfo(dt).eps, "backend.eps")
  # a diagonal matrix on the last / first axis
  if 0 not in m.shape:
    for side, a in (("right", k - 1), ("left", 0)):
      legs = [m.legs[i] for i in m.groups()[a]]
      vec = ctx.array([len(q) for q, _ in legs], ctx.choice(DT))
      v = ChargeArray(vec, [sym.make_charge(ctx, g, q) for q, _ in legs],
                      [bool(f) == (side == "left") for _, f in legs])
      if len(legs) > 1:
        v = v.reshape((vec.size,))
      if v.ndim != 1:
        continue
      vf = Frozen(v=v)
      if side == "right":
        # diag(v) has the vector's leg first and its dual second
        r = be.broadcast_right_multiplication(t, v)
        w = D * vec.ravel()
      else:
        r = be.broadcast_left_multiplication(v, t)
        w = D * vec.reshape((-1,) + (1,) * (k - 1))
      vf.verify(ctx, side + " multiplication")
      sym.verify(ctx, r, m.with_dense(w.reshape(m.dense.shape)),
                 "broadcast_%s_multiplication" % side)
      ctx.stats.obs("broadcasts")
      if k > 1:
        if side == "right":
          ctx.rejects(lambda: be.broadcast_right_multiplication(t, t),
                      "right multiplication by rank %d" % k, (ValueError,))
        else:
          ctx.rejects(lambda: be.broadcast_left_multiplication(t, t),
                      "left multiplication by rank %d" % k, (ValueError,))
      M = be.diagflat(v)
      ctx.close(np.asarray(M.todense()), np.diag(vec.ravel()),
                "backend.diagflat")
      ctx.rejects(lambda: be.diagflat(v, 1), "diagflat with an offset",
                  (NotImplementedError,))
  # matrices
  if k >= 2 and 0 not in m.shape:
    i, j = 0, 1
    conjt = be.conj(t)
    r = be.tensordot(t, conjt, (list(range(1, k)), list(range(1, k))))
    fr.verify(ctx, "tensordot")
    R = np.tensordot(D, D.conj(), (list(range(1, k)), list(range(1, k))))
    ctx.close(np.asarray(r.todense()).reshape(R.shape), R, "t conj(t)",
              tol=50 * ctx_tol(m))
    tr = be.trace(r)
    ctx.close(np.asarray(tr.item() if hasattr(tr, "item") else tr),
              np.trace(R), "backend.trace", tol=50 * ctx_tol(m))
    ctx.close(np.asarray(be.trace(r, axis1=1, axis2=0)), np.trace(R),
              "backend.trace", tol=50 * ctx_tol(m))
    ctx.rejects(lambda: be.trace(r, axis1=1, axis2=1), "trace over one axis",
                (ValueError,))
    ctx.rejects(lambda: be.trace(r, 1), "trace with an offset",
                (NotImplementedError,))
    rr = be.matmul(r, r)
    ctx.close(np.asarray(rr.todense()), R @ R, "backend.matmul",
              tol=500 * ctx_tol(m))
    sym.check_meta(ctx, rr, sym.Model(
        g, [m.legs[x] for x in m.groups()[0]] +
        [(q, not f) for q, f in (m.legs[x] for x in m.groups()[0])],
        [len(m.groups()[0])] * 2,
        (R @ R).reshape([len(m.legs[x][0]) for x in m.groups()[0]] * 2)),
                   "backend.matmul")
    dg = be.diagonal(r)
    ctx.eq(len(np.asarray(dg.todense())), len(R), "backend.diagonal")
    ctx.close(np.sort(np.asarray(dg.todense()).real),
              np.sort(np.diag(R).real), "backend.diagonal",
              tol=50 * ctx_tol(m))
    ctx.rejects(lambda: be.diagonal(r, offset=1), "diagonal with an offset",
                (NotImplementedError,))
    e, u = be.eigh(r)
    E = np.sort(np.asarray(e.todense()).real)
    ctx.close(E, np.linalg.eigvalsh(R), "backend.eigh", tol=500 * ctx_tol(m))
    ctx.close(np.asarray(u.todense()) @ np.asarray(u.todense()).conj().T,
              np.eye(len(R)), "backend.eigh vectors", tol=50 * ctx_tol(m))
    reg = r + be.eye(sym_index(r), dtype=r.dtype) * (1 + np.trace(R).real)
    W = R + np.eye(len(R)) * (1 + np.trace(R).real)
    iv = be.inv(reg)
    ctx.close(np.asarray(iv.todense()) @ W, np.eye(len(R)), "backend.inv",
              tol=500 * ctx_tol(m))
    ctx.stats.obs("backend_matrices")
    if k > 2:
      ctx.rejects(lambda: be.inv(t), "inv of rank %d" % k, (ValueError,))
      ctx.rejects(lambda: be.matmul(t, t), "matmul of rank %d" % k,
                  (ValueError,))
  fr.verify(ctx, "backend operations")
  ctx.obs("backend_calls")


def ctx_tol(m):
  return 1e-5 if np.dtype(m.dense.dtype).itemsize // \
      (2 if m.dense.dtype.kind == "c" else 1) == 4 else 1e-12


def sym_index(r):
  return r.sparse_shape[0]


def case_reject(ctx):
  t, m = _new(ctx, n=ctx.integers(1, 4))
  ctx.note(m.g, m.shape, m.part)
  _sig(ctx, m)
  fr = Frozen(t=t)
  ctx.rejects(lambda: t.transpose(list(range(m.ndim + 1))),
              "transpose with too many axes", (ValueError,))
  ctx.rejects(lambda: t.transpose(list(range(m.ndim))[:-1]),
              "transpose with too few axes", (ValueError,))
  if m.ndim > 1:
    ctx.rejects(lambda: t.transpose([0] * m.ndim),
                "transpose with a repeated axis", (ValueError,))
  if m.ndim != 2:
    ctx.rejects(lambda: t.H, "H of a rank-%d tensor" % m.ndim, (ValueError,))
  if m.ndim > 2:
    ctx.rejects(lambda: t @ t, "@ of a rank-%d tensor" % m.ndim, (ValueError,))
  n = int(np.prod(m.shape, dtype=int))
  ctx.rejects(lambda: t.reshape((n + 1,)), "reshape to another size",
              (ValueError,))
  # a shape that cuts through an elementary leg
  dims = [len(q) for q, _ in m.legs]
  cum = {int(x) for x in np.cumprod(dims)}
  opts = [a for a in range(2, n) if n % a == 0 and a not in cum]
  if opts and 0 not in dims:
    a = ctx.choice(opts)
    ctx.rejects(lambda: t.reshape((a, n // a)), "reshape of %s to %s" %
                (dims, (a, n // a)), (ValueError,))
    ctx.stats.obs("cut_reshapes")
  ctx.rejects(lambda: t.reshape((n,) + (1,) * len(m.legs)),
              "reshape to more axes than legs", (ValueError,))
  fr.verify(ctx, "a rejected operation")
  sym.verify(ctx, t, m, "after rejections")


CHECK = core.Check(
    "C10",
    [
        core.Group("chain", case_chain, 2500, 40000),
        core.Group("binary", case_binary, 1200, 16000),
        core.Group("dot", case_dot, 3000, 50000),
        core.Group("dot_big", lambda c: case_dot(c, True), 150, 2500, cpu=120),
        core.Group("many", case_many, 48, 900, cpu=120),
        core.Group("mixed", case_mixed, 200, 2000),
        core.Group("outer", case_outer, 800, 10000),
        core.Group("trace", case_trace, 1200, 16000),
        core.Group("diag", case_diag, 800, 10000),
        core.Group("chargearray", case_chargearray, 500, 6000),
        core.Group("init", case_init, 800, 10000),
        core.Group("item", case_item, 300, 3000),
        core.Group("backend", case_backend, 800, 10000),
        core.Group("reject", case_reject, 600, 6000),
    ],
    rule="cases in which a block-sparse result was compared entry by entry "
         "with its dense image; distinct by symmetry, charges layout and "
         "operations",
    required=("tensors_verified", "contractions", "sums", "outer_products",
              "traces", "diags", "vector_diags", "matmuls", "int_axes",
              "charge_arrays", "eyes", "dot_rejections", "mutation_observations",
              "cut_reshapes", "mixed_rejected", "scalars",
              "many_sector_tensors"),
)
