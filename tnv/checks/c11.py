"""C11: charges and indices obey the symmetry group's algebra."""
import numpy as np
from tensornetwork.block_sparse import (U1Charge, Z2Charge, ZNCharge,
                                        BaseCharge, Index)
from tensornetwork.block_sparse import charge as chm
from tensornetwork.block_sparse import index as idm
from tensornetwork.block_sparse import utils as ut
from tensornetwork.block_sparse import blocksparse_utils as bu

from tnv import core, sym


def _freeze(c):
  return (np.asarray(c.charges).tobytes(), np.asarray(c.charges).shape,
          tuple(c.charge_types), np.dtype(c.dtype).str)


def _new(ctx, g=None, dim=None, dtype=np.int16, q=None):
  g = g if g is not None else sym.group(ctx, 5)
  if q is None:
    q = sym.rand_q(ctx, g, ctx.integers(0, 9) if dim is None else dim)
  c = sym.make_charge(ctx, g, q, dtype)
  if ctx.flip():  # the lazily computed representation must not matter
    _ = c.unique_charges
  return g, q, c


def expect(ctx, c, g, q, what, dtype=None):
  """Monitor: charge object c stands for the group elements q."""
  got = np.asarray(c.charges)
  ctx.eq(got.shape, q.shape, what + ": shape")
  ctx.check(np.array_equal(sym.reduce_mod(g, got), sym.reduce_mod(g, q)),
            "%s: charges %s, expected %s", what, got, q)
  for k, m in enumerate(sym.mods(g)):
    if m is not None:
      ctx.check(np.all((got[:, k] >= 0) & (got[:, k] < m)),
                "%s: column %d leaves range(%d): %s", what, k, m, got)
  ctx.eq(len(c), len(q), what + ": len")
  ctx.eq(int(c.dim), len(q), what + ": dim")
  ctx.eq(int(c.num_symmetries), len(g), what + ": num_symmetries")
  ctx.check(list(c.charge_types) == [sym.ctype(x) for x in g],
            "%s: charge types %s", what, c.charge_types)
  if dtype is not None:
    ctx.eq(np.dtype(c.dtype), np.dtype(dtype), what + ": dtype")
  ctx.check([tuple(x) for x in c] == [tuple(x) for x in got],
            "%s: iteration", what)
  # equality does not depend on how the charges are stored
  fresh = sym.make_charge(ctx, g, got) if c.dtype == np.int16 else BaseCharge(
      got, charge_types=list(c.charge_types), charge_dtype=c.dtype)
  if ctx.flip():
    _ = fresh.unique_charges
  ctx.check(bool(chm.charge_equal(c, fresh)) and
            bool(chm.charge_equal(fresh, c)),
            "%s: differs from a new charge of the same values", what)
  ctx.obs("charges_verified")


def expect_unique(ctx, c, what):
  """unique_charges and charge_labels reproduce the charges."""
  before = np.asarray(c.charges).copy()
  u, l = np.asarray(c.unique_charges), np.asarray(c.charge_labels)
  ctx.check(np.array_equal(u[l], before), "%s: unique_charges[charge_labels]",
            what)
  ctx.eq(len({tuple(x) for x in u}), len(u), what + ": repeated unique charges")
  ctx.eq(int(c.num_unique), len(u), what + ": num_unique")
  ctx.check(np.array_equal(np.asarray(c.charges), before),
            "%s: charges changed when uniques were computed", what)


def case_algebra(ctx):
  big = ctx.flip(0.15)
  dt = np.int32 if big else np.int16
  g = sym.group(ctx, 5)
  n = ctx.integers(1, 4)
  qs, cs = [], []
  for _ in range(n):
    d = ctx.integers(0, 6) if ctx.flip(0.1) else ctx.integers(1, 6)
    q = sym.rand_q(ctx, g, d)
    if big:
      for k, m in enumerate(sym.mods(g)):
        if m is None:
          q[:, k] *= 30000
    if big:
      if len(g) == 1:
        c = sym.ctype(g[0])(q[:, 0], charge_dtype=dt) if ctx.flip() else \
            BaseCharge(q, charge_types=[sym.ctype(g[0])], charge_dtype=dt)
      else:
        c = BaseCharge(q, charge_types=[sym.ctype(x) for x in g],
                       charge_dtype=dt)
    else:
      c = sym.make_charge(ctx, g, q)
    if ctx.flip():
      _ = c.unique_charges
    qs.append(q)
    cs.append(c)
  ctx.note(g, [q.tolist() for q in qs])
  ctx.sig([str(x) for x in g], [q.tolist() for q in qs], str(dt))
  fz = [_freeze(c) for c in cs]
  for q, c in zip(qs, cs):
    expect(ctx, c, g, q, "constructed", dt)
  # dual
  q, c = qs[0], cs[0]
  ctx.check(c * False is c or _freeze(c * False) == fz[0], "c * False")
  expect(ctx, c * True, g, sym.reduce_mod(g, -q), "dual", dt)
  expect(ctx, c.dual(True), g, sym.reduce_mod(g, -q), "dual", dt)
  expect(ctx, (c * True) * np.bool_(True), g, q, "double dual", dt)
  for bad in (1, 0, 2.0, None, "a"):
    ctx.rejects(lambda b=bad: c * b, "charge * %r" % (bad,), (ValueError,))
  # fusion
  flows = [ctx.flip() for _ in cs]
  want = sym.total(g, list(zip(qs, flows)))
  f = chm.fuse_charges(cs, flows)
  expect(ctx, f, g, want, "fuse_charges", dt)
  acc = cs[0] * flows[0]
  for k in range(1, n):
    acc = acc + cs[k] * flows[k]
  expect(ctx, acc, g, want, "c + c", dt)
  if n >= 3:
    x = cs[0] + (cs[1] + cs[2])
    expect(ctx, x, g, sym.total(g, [(a, False) for a in qs[:3]]),
           "associativity", dt)
  ctx.rejects(lambda: chm.fuse_charges(cs, flows + [True]),
              "fuse_charges with too many flows", (ValueError,))
  raw = chm.fuse_ndarray_charges(np.asarray(cs[0].charges),
                                 np.asarray(cs[-1].charges),
                                 [sym.ctype(t) for t in g])
  ctx.check(np.array_equal(sym.reduce_mod(g, raw), sym.reduce_mod(
      g, sym.total(g, [(qs[0], False), (qs[-1], False)]))),
            "fuse_ndarray_charges")
  # identity
  k = ctx.integers(1, 4)
  i = cs[0].identity_charges(k)
  expect(ctx, i, g, np.zeros((k, len(g)), dtype=np.int64), "identity", dt)
  expect(ctx, cs[0] + cs[0].identity_charges(1), g, qs[0], "c + identity", dt)
  # a charge fused with its dual contains the identity on the diagonal
  if len(qs[0]):
    z = np.asarray((cs[0] + cs[0] * True).charges).reshape(
        len(qs[0]), len(qs[0]), len(g))
    ctx.check(not np.any(z[np.arange(len(qs[0])), np.arange(len(qs[0]))]),
              "c fused with its dual is not neutral")
  expect_unique(ctx, f, "fused")
  expect_unique(ctx, c * True, "dual")
  for c, z in zip(cs, fz):
    ctx.check(_freeze(c) == z, "an operation modified its operand")
  # products of symmetries
  g2, q2, c2 = _new(ctx, dim=len(qs[0]))
  if not big:
    p = cs[0] @ c2
    expect(ctx, p, g + g2, np.concatenate([qs[0], q2], axis=1), "@", dt)
    expect_unique(ctx, p, "@")
  _, _, c3 = _new(ctx, dim=len(qs[0]) + 1)
  ctx.rejects(lambda: cs[0] @ c3, "@ of different lengths", (ValueError,))
  cp = cs[0].copy()
  expect(ctx, cp, g, qs[0], "copy", dt)
  if len(qs[0]):
    _bump(cp)
    ctx.check(_freeze(cs[0]) == fz[0], "a copy shares data")
  ctx.check(isinstance(repr(cs[0]), str) and isinstance(cs[0].names, str) and
            all(t.__name__ in cs[0].names for t in cs[0].charge_types), "repr")


def case_select(ctx):
  """unique, reduce, intersect, ==, indexing against set semantics."""
  g = sym.group(ctx, 5)
  d = ctx.integers(1, 12)
  q = sym.rand_q(ctx, g, d)
  c = sym.make_charge(ctx, g, q)
  if ctx.flip():
    _ = c.unique_charges
  if ctx.flip(0.2):
    sel = [ctx.integers(0, d - 1) for _ in range(ctx.integers(1, 8))]
    c, q = c[sel], q[sel]
  ctx.note(g, q.tolist())
  ctx.sig([str(x) for x in g], q.tolist())
  z = _freeze(c)
  rows = [tuple(int(v) for v in r) for r in q]
  # unique
  flags = dict(return_index=ctx.flip(), return_inverse=ctx.flip(),
               return_counts=ctx.flip())
  out = c.unique(**flags)
  out = list(out) if any(flags.values()) else [out]
  u = out.pop(0)
  ur = [tuple(int(v) for v in r) for r in np.asarray(u.charges)]
  ctx.check(len(set(ur)) == len(ur) and set(ur) == set(rows),
            "unique: %s of %s", ur, rows)
  expect(ctx, u, g, np.array(ur).reshape(len(ur), len(g)), "unique")
  if flags["return_index"]:
    i = np.asarray(out.pop(0))
    ctx.check([rows[k] for k in i] == ur, "unique: return_index")
    ctx.check([rows.index(x) for x in ur] == [int(k) for k in i],
              "unique: return_index is not the first occurrence")
  if flags["return_inverse"]:
    i = np.asarray(out.pop(0))
    ctx.check([ur[k] for k in i] == rows, "unique: return_inverse")
  if flags["return_counts"]:
    i = np.asarray(out.pop(0))
    ctx.check([rows.count(x) for x in ur] == [int(k) for k in i],
              "unique: return_counts")
  ctx.eq(len(out), 0, "unique: extra results")
  expect_unique(ctx, c, "charge")
  # getitem
  sel = [ctx.integers(0, len(rows) - 1) for _ in range(ctx.integers(0, 6))]
  k = ctx.integers(0, len(rows) - 1)
  expect(ctx, c[k], g, q[k:k + 1], "c[int]")
  expect(ctx, c[np.int64(k)], g, q[k:k + 1], "c[np.int]")
  expect(ctx, c[np.array(sel, dtype=int)], g, q[sel], "c[array]")
  if sel:
    expect(ctx, c[sel], g, q[sel], "c[list]")
    expect_unique(ctx, c[sel], "c[list]")
  # targets
  pool = rows + [tuple(int(v) for v in r) for r in sym.rand_q(ctx, g, 4)]
  tg = ctx.subset(sorted(set(pool)), ctx.integers(1, min(4, len(set(pool)))))
  t = np.array(tg, dtype=np.int16).reshape(len(tg), len(g))
  form = t[:, 0] if len(g) == 1 and ctx.flip() else t
  if len(tg) == 1 and len(g) == 1 and ctx.flip():
    form = int(t[0, 0])
  stride = ctx.choice([1, 1, 3])
  r, loc = c.reduce(form, return_locations=True, strides=stride)
  keep = [k for k, x in enumerate(rows) if x in set(tg)]
  expect(ctx, r, g, q[keep], "reduce")
  ctx.check([int(x) for x in loc] == [stride * k for k in keep],
            "reduce: locations %s", loc)
  expect(ctx, c.reduce(form), g, q[keep], "reduce")
  expect_unique(ctx, r, "reduced")
  # ==
  e = c == t
  ctx.check(np.array_equal(e, [[x == y for y in tg] for x in rows]),
            "== with an array")
  tc = sym.make_charge(ctx, g, t)
  e = np.asarray(c.__eq__(tc))
  ctx.check(np.array_equal(e, [[x == y for y in tg] for x in rows]),
            "== with a charge")
  ctx.rejects(lambda: c == np.zeros((0, len(g)), dtype=np.int16),
              "== with an empty array", (ValueError,))
  ctx.rejects(lambda: c == np.zeros((2, len(g) + 1), dtype=np.int16),
              "== with another number of symmetries", (ValueError,))
  # intersect
  for other in (tc, t):
    oq = tg
    o = c.intersect(other)
    got = [tuple(int(v) for v in x) for x in np.asarray(o.charges)]
    ctx.check(len(set(got)) == len(got) and set(got) == set(rows) & set(oq),
              "intersect %s with %s gives %s", rows, oq, got)
    o, i, j = c.intersect(other, return_indices=True)
    got = [tuple(int(v) for v in x) for x in np.asarray(o.charges)]
    ctx.check(set(got) == set(rows) & set(oq) and [rows[k] for k in i] == got
              and [oq[k] for k in j] == got, "intersect: indices")
    expect(ctx, o, g, np.array(got).reshape(len(got), len(g)), "intersect")
  ctx.check(_freeze(c) == z, "an operation modified the charge")
  # equality of whole charges
  same = sym.make_charge(ctx, g, q)
  ctx.check(chm.charge_equal(c, same) is True or chm.charge_equal(c, same),
            "equal charges compare unequal")
  p = q.copy()
  k = ctx.integers(0, len(p) - 1)
  m = sym.mods(g)[0]
  p[k, 0] = (p[k, 0] + 1) % m if m else p[k, 0] + 1
  diff = sym.make_charge(ctx, g, p)
  if ctx.flip():
    _ = diff.unique_charges
  ctx.check(not chm.charge_equal(c, diff), "unequal charges compare equal")
  ctx.check(not chm.charge_equal(c, sym.make_charge(
      ctx, g, np.concatenate([q, q[:1]]))), "charges of different dimension "
            "compare equal")
  perm = ctx.perm(len(q))
  ctx.eq(bool(chm.charge_equal(c, c[perm])), bool(np.array_equal(q[perm], q)),
         "charge_equal with a permuted charge")
  g3 = [3 if x == 5 else 5 for x in g]
  other = sym.make_charge(ctx, g3, q % 2)
  ctx.check(not chm.charge_equal(sym.make_charge(ctx, g, q % 2), other),
            "charges of different symmetries compare equal")
  ctx.obs("selections")


def case_types(ctx):
  """Validation, random constructors, many unique charges."""
  n = ctx.integers(2, 9)
  zn = ZNCharge(n)
  d = ctx.integers(1, 30)
  seed = ctx.integers(0, 2**31 - 1)
  np.random.seed(seed)
  ctx.note(n, d)
  ctx.sig(n, d, seed)
  lo = ctx.integers(-5, 3)
  hi = ctx.integers(lo, lo + 6)
  c = U1Charge.random(d, lo, hi)
  x = np.asarray(c.charges)
  ctx.check(x.shape == (d, 1) and np.all((x >= lo) & (x <= hi)),
            "U1Charge.random")
  c = Z2Charge.random(d)
  ctx.check(np.asarray(c.charges).shape == (d, 1) and
            set(np.unique(c.charges)) <= {0, 1}, "Z2Charge.random")
  a = ctx.integers(0, n - 1)
  b = ctx.integers(a, n - 1)
  c = zn.random(d, a, b)
  x = np.asarray(c.charges)
  ctx.check(x.shape == (d, 1) and np.all((x >= a) & (x <= b)),
            "ZNCharge.random")
  x = np.asarray(zn.random(400).charges)
  ctx.check(set(np.unique(x)) == set(range(n)), "ZNCharge.random does not "
            "cover the group: %s", np.unique(x))
  x = np.asarray(U1Charge.random(600, lo, hi).charges)
  ctx.check(set(np.unique(x)) == set(range(lo, hi + 1)), "U1Charge.random "
            "does not cover [%d, %d]", lo, hi)
  ctx.rejects(lambda: zn.random(d, 0, n), "ZN random beyond the group",
              (ValueError,))
  ctx.rejects(lambda: zn.random(d, -1, n - 1), "ZN random below 0",
              (ValueError,))
  ctx.rejects(lambda: Z2Charge.random(d, 0, 2), "Z2 random beyond the group",
              (ValueError,))
  ctx.rejects(lambda: Z2Charge.random(d, -1, 1), "Z2 random below 0",
              (ValueError,))
  v = [ctx.integers(0, n - 1) for _ in range(d)]
  w = list(v)
  w[ctx.integers(0, d - 1)] = ctx.choice([n, n + 3, -1])
  zn(v)
  ctx.rejects(lambda: zn(w), "invalid ZN charge", (ValueError,))
  ctx.rejects(lambda: zn(np.array(w)), "invalid ZN charge", (ValueError,))
  v = [int(y) % 2 for y in v]
  Z2Charge(v)
  v[ctx.integers(0, d - 1)] = ctx.choice([2, -1, 5])
  ctx.rejects(lambda: Z2Charge(v), "invalid Z2 charge", (ValueError,))
  for bad in (1, 0, -3):
    ctx.rejects(lambda bb=bad: ZNCharge(bb), "ZNCharge(%d)" % bad,
                (ValueError,))
  ctx.check(ZNCharge(n) is zn, "ZNCharge(n) is a new symmetry on every call")
  ctx.rejects(lambda: BaseCharge(np.zeros((3, 2)), charge_types=[U1Charge]),
              "too few charge types", (ValueError,))
  ctx.obs("type_checks")


def case_wide(ctx):
  """More distinct charges than a 16 bit label can count."""
  k = ctx.integers(185, 200)
  a = np.stack([np.arange(k), np.zeros(k)], axis=1).astype(np.int16)
  b = np.stack([np.zeros(k), np.arange(k)], axis=1).astype(np.int16)
  ty = [U1Charge, U1Charge]
  ca, cb = BaseCharge(a, charge_types=ty), BaseCharge(b, charge_types=ty)
  f = ca + cb
  u, inv, cnt = f.unique(return_inverse=True, return_counts=True)
  ctx.eq(len(u), k * k, "unique charges of a wide fused leg")
  ctx.check(np.array_equal(np.asarray(u.charges)[inv], f.charges),
            "unique inverse of a wide fused leg")
  ctx.check(np.all(np.asarray(cnt) == 1), "counts of a wide fused leg")
  ctx.check(np.array_equal(f.unique_charges[f.charge_labels], f.charges),
            "labels of a wide fused leg")
  x, y = ctx.integers(0, k - 1), ctx.integers(0, k - 1)
  _, loc = bu.reduce_charges([ca, cb], [False, False],
                             np.array([[x, y]], dtype=np.int16), True)
  ctx.check([int(v) for v in loc] == [x * k + y],
            "reduce_charges on a wide fused leg: %s", loc)
  ctx.sig(k, x, y)
  ctx.obs("wide")


def _legs(ctx, g, lo=1, hi=4, big=False):
  n = ctx.integers(lo, hi)
  dims = (25, 30, 40) if big else (1, 2, 3, 4, 5)
  return sym.rand_legs(ctx, g, n, dims=dims, empty=0 if big else 0.03)


def case_sectors(ctx, big=False):
  """Degeneracies, non-zero counts and block maps partition the tensor."""
  g = sym.group(ctx, 4)
  legs = _legs(ctx, g, 3, 3, True) if big else _legs(ctx, g)
  cs = [sym.make_charge(ctx, g, q) for q, _ in legs]
  fl = [f for _, f in legs]
  n = len(legs)
  ctx.note(g, [q.tolist() for q, _ in legs] if not big else "big", fl)
  ctx.sig([str(x) for x in g], [q.tolist() for q, _ in legs], fl)
  tot = sym.total(g, legs)
  uq, cnt = np.unique(tot, axis=0, return_counts=True) if len(tot) else (
      tot, np.zeros(0, int))
  want = {tuple(a): int(b) for a, b in zip(uq, cnt)}
  flows = ctx.choice([fl, np.array(fl)])
  msk = np.flatnonzero(np.all(tot == 0, axis=1))
  ctx.eq(int(bu.compute_num_nonzero(cs, flows)), len(msk),
         "compute_num_nonzero")
  if len(tot):
    c, d = bu.compute_fused_charge_degeneracies(cs, flows)
    got = {tuple(int(v) for v in sym.reduce_mod(g, a)): int(b)
           for a, b in zip(np.asarray(c.charges), d)}
    ctx.check(got == want and len(c) == len(want),
              "compute_fused_charge_degeneracies: %s, expected %s", got, want)
    u = bu.compute_unique_fused_charges(cs, flows)
    got = [tuple(int(v) for v in a)
           for a in sym.reduce_mod(g, np.asarray(u.charges))]
    ctx.check(set(got) == set(want) and len(got) == len(want),
              "compute_unique_fused_charges: %s, expected %s", got, want)
    # reduce_charges
    pool = sorted(want)
    tg = ctx.subset(pool, ctx.integers(1, min(3, len(pool))))
    t = np.array(tg, dtype=np.int16).reshape(len(tg), len(g))
    strides = None
    dims = [len(q) for q, _ in legs]
    pos = np.arange(len(tot))
    if n > 1 and ctx.flip():
      perm = ctx.perm(n)  # strides of a permuted dense array
      full = np.append(np.cumprod(dims[::-1])[::-1][1:], 1)
      inv = np.argsort(perm)
      st = np.append(np.cumprod(np.array(dims)[perm][::-1])[::-1][1:], 1)
      strides = st[inv]
      multi = np.array(np.unravel_index(pos, dims))
      pos = (strides[:, None] * multi).sum(axis=0)
      del full
    r, loc = bu.reduce_charges(cs, flows, t, return_locations=True,
                               strides=strides)
    s = set(tg)
    keep = [k for k, x in enumerate(map(tuple, tot)) if x in s]
    ctx.check(np.array_equal(np.asarray(loc, dtype=np.int64), pos[keep]),
              "reduce_charges: locations")
    ctx.check(np.array_equal(sym.reduce_mod(g, np.asarray(r.charges)),
                             tot[keep]), "reduce_charges: charges")
    r2 = bu.reduce_charges(cs, flows, t)
    ctx.check(np.array_equal(r2.charges, r.charges), "reduce_charges without "
              "locations")
  # blocks of the matrix form
  if n > 1:
    part = ctx.integers(0, n)
    order = ctx.perm(n)
    _check_blocks(ctx, g, legs, cs, fl, part, order, msk)
  ctx.obs("sector_checks")


def _bump(c):
  """Overwrites a charge's own storage in place."""
  for name in ("_charges", "_unique_charges"):
    a = getattr(c, name, None)
    if a is not None:
      a[:] += 1
      return True
  return False


def _check_blocks(ctx, g, legs, cs, fl, part, order, msk):
  """Every stored entry is in exactly one block, at the right place."""
  which = ctx.flip()
  if not hasattr(bu, "_find_diagonal_sparse_blocks") or not hasattr(
      bu, "_find_transposed_diagonal_sparse_blocks"):
    return  # internal helpers, also observed through the tensors of C10
  if which:
    order = list(range(len(legs)))
    maps, qn, dims = bu._find_diagonal_sparse_blocks(cs, np.array(fl), part)
  else:
    maps, qn, dims = bu._find_transposed_diagonal_sparse_blocks(
        cs, fl, part, np.asarray(order))
  shape = [len(q) for q, _ in legs]
  index = np.full(int(np.prod(shape)), -1)
  index[msk] = np.arange(len(msk))
  tr = np.transpose(index.reshape(shape), order)
  rows = int(np.prod(tr.shape[:part], dtype=int))
  mat = tr.reshape(rows, -1) if index.size else np.zeros((0, 0), int)
  ordered = [legs[o] for o in order]
  rq = sym.total(g, ordered[:part]) if part else np.zeros((1, len(g)), int)
  cq = sym.reduce_mod(g, -sym.total(g, ordered[part:])) if part < len(legs) \
      else np.zeros((1, len(g)), int)
  seen = []
  for b, m in enumerate(maps):
    x = sym.reduce_mod(g, np.asarray(qn.charges)[b])
    ri = np.flatnonzero(np.all(rq == x, axis=1))
    ci = np.flatnonzero(np.all(cq == x, axis=1))
    if not len(m):
      continue
    ctx.eq((int(dims[0][b]), int(dims[1][b])), (len(ri), len(ci)),
           "shape of block %s" % (x,))
    ctx.check(np.array_equal(np.ravel(m), mat[np.ix_(ri, ci)].ravel()),
              "entries of block %s", x)
    seen.extend(np.ravel(m).tolist())
  ctx.check(sorted(seen) == list(range(len(msk))),
            "blocks do not partition the %d stored entries", len(msk))
  ctx.obs("block_partitions")


def case_index(ctx):
  g = sym.group(ctx, 4)
  legs = _legs(ctx, g, 1, 4)
  cs = [sym.make_charge(ctx, g, q) for q, _ in legs]
  fl = [f for _, f in legs]
  n = len(legs)
  ctx.note(g, [q.tolist() for q, _ in legs], fl)
  ctx.sig([str(x) for x in g], [q.tolist() for q, _ in legs], fl)
  singles = [Index(c, f) if ctx.flip() else Index([c], [f])
             for c, f in zip(cs, fl)]
  whole = Index(cs, fl)
  prod = singles[0]
  for s in singles[1:]:
    prod = prod * s
  fused = idm.fuse_indices(singles)
  tot = sym.total(g, legs)
  dim = int(np.prod([len(q) for q, _ in legs]))
  for what, i in (("Index", whole), ("product", prod),
                  ("fuse_indices", fused), ("copy", whole.copy())):
    ctx.eq(int(i.dim), dim, what + ": dim")
    ctx.eq(len(i), dim, what + ": len")
    ctx.eq([bool(f) for f in i.flat_flows], fl, what + ": flat_flows")
    ctx.eq(len(i.flat_charges), n, what + ": flat_charges")
    for c, (q, _) in zip(i.flat_charges, legs):
      ctx.check(np.array_equal(c.charges, q), "%s: flat_charges", what)
    ctx.check(np.array_equal(sym.reduce_mod(g, np.asarray(i.charges.charges)),
                             tot), "%s: fused charges", what)
    ctx.check(i == whole and not i != whole, "%s compares unequal", what)
    if n > 1:
      ctx.check(not i == singles[0], "%s equals one of its factors", what)
  fp = whole.flip_flow()
  ctx.eq([bool(f) for f in fp.flat_flows], [not f for f in fl], "flip_flow")
  ctx.eq([bool(f) for f in whole.flat_flows], fl, "flip_flow changed its index")
  ctx.check(np.array_equal(sym.reduce_mod(g, np.asarray(fp.charges.charges)),
                           sym.reduce_mod(g, -tot)), "flip_flow: charges")
  ctx.check(fp != whole and fp.flip_flow() == whole, "flip_flow equality")
  cp = whole.copy()
  x = cp.flat_charges[0]
  if len(legs[0][0]):
    changed = _bump(x)
    ctx.check(np.array_equal(whole.flat_charges[0].charges, legs[0][0]),
              "a copy of an index shares its charges")
    ctx.check(not changed or cp != whole, "different indices compare equal")
  cp.flow[0] = not cp.flow[0]
  ctx.eq([bool(f) for f in whole.flat_flows], fl, "a copy shares its flows")
  k = ctx.integers(0, n - 1)
  fl2 = list(fl)
  fl2[k] = not fl2[k]
  ctx.check(Index(cs, fl2) != whole, "indices with different flows are equal")
  if n > 1:
    p = ctx.perm(n)
    same = all(np.array_equal(legs[a][0], legs[b][0]) and
               legs[a][1] == legs[b][1] for a, b in enumerate(p))
    ctx.eq(Index([cs[a] for a in p], [fl[a] for a in p]) == whole, same,
           "equality of a permuted index")
  again = Index([sym.make_charge(ctx, g, q) for q, _ in legs], fl)
  ctx.check(again == whole, "equal indices compare unequal")
  for bad in (1, "a", 0.0, None, [1], [True, 2]):
    ctx.rejects(lambda b=bad: Index(cs[0], b), "flow %r" % (bad,),
                (TypeError, ValueError))
  ctx.check(isinstance(repr(whole), str), "repr")
  ctx.obs("indices")


def case_utils(ctx):
  """Row-wise set functions against python sets."""
  w = ctx.integers(1, 6)
  dt = ctx.choice([np.int8, np.int16, np.int32, np.int64])
  ra, rb = ctx.integers(0, 12), ctx.integers(0, 12)
  hi = ctx.choice([1, 2, 100])
  one = ctx.flip(0.2)
  a = ctx.rng.integers(-hi, hi + 1, size=(ra, w)).astype(dt)
  b = ctx.rng.integers(-hi, hi + 1, size=(rb, w)).astype(dt)
  if ra and rb and ctx.flip():
    b[ctx.integers(0, rb - 1)] = a[ctx.integers(0, ra - 1)]
  if one:
    a, b, w = a[:, 0].copy(), b[:, 0].copy(), 0
  ctx.note(a.tolist(), b.tolist(), str(dt))
  ctx.sig(a.tolist(), b.tolist(), str(dt))
  key = (lambda x: int(x)) if one else (lambda x: tuple(int(v) for v in x))
  A, B = [key(x) for x in a], [key(x) for x in b]
  fa, fb = a.copy(), b.copy()
  u = ut.unique(a)
  U = [key(x) for x in u]
  ctx.check(sorted(U) == sorted(set(A)), "unique(%s) = %s", A, U)
  ctx.eq(u.dtype, a.dtype, "unique: dtype")
  fl = [ctx.flip() for _ in range(3)]
  out = ut.unique(a, *fl)
  if any(fl):
    out = list(out)
    U = [key(x) for x in out.pop(0)]
    ctx.check(sorted(U) == sorted(set(A)), "unique with flags")
    if fl[0]:
      i = out.pop(0)
      ctx.check([int(x) for x in i] == [A.index(x) for x in U],
                "unique: index")
    if fl[1]:
      ctx.check([U[k] for k in out.pop(0)] == A, "unique: inverse")
    if fl[2]:
      ctx.check([int(x) for x in out.pop(0)] == [A.count(x) for x in U],
                "unique: counts")
  r = ut.intersect(a, b)
  R = [key(x) for x in r]
  ctx.check(sorted(R) == sorted(set(A) & set(B)), "intersect(%s, %s) = %s", A,
            B, R)
  r, i, j = ut.intersect(a, b, return_indices=True)
  R = [key(x) for x in r]
  ctx.check(sorted(R) == sorted(set(A) & set(B)) and [A[k] for k in i] == R
            and [B[k] for k in j] == R, "intersect with indices")
  if not one:
    rt, it, jt = ut.intersect(np.ascontiguousarray(a.T),
                              np.ascontiguousarray(b.T), axis=1,
                              return_indices=True)
    R = [key(x) for x in rt.T]
    ctx.check(sorted(R) == sorted(set(A) & set(B)) and [A[k] for k in it] == R
              and [B[k] for k in jt] == R, "intersect over columns")
    rt = ut.intersect(a.T.copy(), b.T.copy(), axis=1)
    ctx.check(sorted(key(x) for x in rt.T) == sorted(set(A) & set(B)),
              "intersect over columns without indices")
    wide = np.concatenate([b, b], axis=1)
    ctx.rejects(lambda: ut.intersect(a, wide), "intersect of widths")
    ctx.rejects(lambda: ut.intersect(a.T, wide.T, axis=1),
                "intersect of heights")
    ctx.rejects(lambda: ut.intersect(a, b[:, 0]), "intersect of ndims")
    ctx.rejects(lambda: ut.intersect(a, b, axis=2), "intersect over axis 2",
                (NotImplementedError, ValueError))
    ctx.rejects(lambda: ut.intersect(a, b.astype(
        np.int8 if dt != np.int8 else np.int16)), "intersect of dtypes")
    c = ut.collapse(a)
    e = ut.expand(c, a.dtype, w, 2)
    ctx.check(np.array_equal(e, a), "expand(collapse(a)) = %s", e)
  ctx.check(np.array_equal(a, fa) and np.array_equal(b, fb),
            "a set function modified its input")
  n = ctx.integers(1, 3)
  arrs = [ctx.rng.integers(-9, 9, size=ctx.integers(0, 4)) for _ in range(n)]
  want = arrs[0]
  for x in arrs[1:]:
    want = np.array([p + q for p in want for q in x], dtype=int)
  ctx.check(np.array_equal(ut.fuse_ndarrays(arrs), want), "fuse_ndarrays")
  d1 = ctx.rng.integers(0, 9, size=3)
  d2 = ctx.rng.integers(0, 9, size=ctx.integers(1, 4))
  ctx.check(np.array_equal(ut.fuse_degeneracies(d1, list(d2)),
                           [p * q for p in d1 for q in d2]),
            "fuse_degeneracies")
  dims = [ctx.integers(1, 4) for _ in range(n)]
  st = [ctx.integers(1, 30) for _ in range(n)]
  want = [sum(s * k for s, k in zip(st, idx)) for idx in np.ndindex(*dims)]
  ctx.check(np.array_equal(ut.fuse_stride_arrays(dims, st), want),
            "fuse_stride_arrays")
  if n > 1:
    best = getattr(ut, "_find_best_partition", None)
    if best is not None:
      p = best(dims)
      ctx.check(1 <= p < n, "_find_best_partition(%s) = %s", dims, p)
  ctx.obs("set_functions")


CHECK = core.Check(
    "C11",
    [
        core.Group("algebra", case_algebra, 2500, 40000),
        core.Group("select", case_select, 2500, 40000),
        core.Group("types", case_types, 200, 2000),
        core.Group("wide", case_wide, 8, 40, cpu=120),
        core.Group("sectors", case_sectors, 2500, 40000),
        core.Group("sectors_big", lambda c: case_sectors(c, True), 80, 800,
                   cpu=120),
        core.Group("index", case_index, 1200, 16000),
        core.Group("utils", case_utils, 2500, 40000),
    ],
    rule="cases in which charge, index or block-map results were compared with "
         "integer arithmetic in the group; distinct by charges and flows",
    required=("charges_verified", "selections", "type_checks", "wide",
              "sector_checks", "block_partitions", "indices",
              "set_functions"),
)
