"""C06: all dense backends agree with the mathematical definition of each
primitive."""
import numpy as np
import scipy.linalg
from tensornetwork.backends import backend_factory

from tnv import core, nets
from tnv.dense import Frozen, to_np

BACKENDS = ("numpy", "tensorflow", "jax")
FLOATS = (np.float64, np.complex128, np.float32, np.complex64)


def be(name):
  return backend_factory.get_backend(name)


def shape(ctx, lo=0, hi=4, dims=(1, 2, 3, 4), zero=False):
  if zero and ctx.flip(0.05):
    dims = dims + (0,)
  return tuple(ctx.choice(dims) for _ in range(ctx.integers(lo, hi)))


def conv(ctx, backend, a):
  """Into the backend's own tensor; numpy inputs with odd layouts."""
  if backend == "numpy":
    if a.ndim and ctx.flip(0.2):
      a = np.asfortranarray(a)
    if ctx.flip(0.2):
      a = a.copy(order="K")
      a.setflags(write=False)
    return a
  return be(backend).convert_to_tensor(a)


def axes_spec(ctx, ra, k, sign=True):
  ax = ctx.perm(ra)[:k]
  if sign and ctx.flip(0.3):
    ax = [x - ra if ctx.flip() else x for x in ax]
  return ax


# every operation: (inputs, call, oracle)
def op_tensordot(ctx, dt):
  ra, rb = ctx.integers(0, 4), ctx.integers(0, 4)
  k = ctx.integers(0, min(ra, rb))
  if ctx.flip(0.3):
    k = ra = rb = max(1, min(ra, rb))
  dims = [ctx.choice((1, 2, 3)) for _ in range(k)]
  sa = [ctx.choice((1, 2, 3)) for _ in range(ra)]
  sb = [ctx.choice((1, 2, 3)) for _ in range(rb)]
  if ctx.flip(0.2):
    n = k
    if n:
      sa[ra - n:] = dims
    sb[:n] = dims
    axes = n
  else:
    ia, ib = axes_spec(ctx, ra, k), axes_spec(ctx, rb, k)
    for d, x, y in zip(dims, ia, ib):
      sa[x] = d
      sb[y] = d
    f = tuple if ctx.flip() else list
    axes = f([f(ia), f(ib)])
  a, b = ctx.array(sa, dt), ctx.array(sb, dt)
  return (a, b), lambda B, x, y: B.tensordot(x, y, axes), \
      lambda x, y: np.tensordot(x, y, axes), axes


def op_reshape(ctx, dt):
  s = shape(ctx, 0, 4)
  total = int(np.prod(s)) if s else 1
  new, left = [], total
  for p in (2, 3):
    while left % p == 0 and left > 1:
      new.append(p)
      left //= p
  if ctx.flip() and len(new) > 1:
    new = [new[0] * new[1]] + new[2:]
  new = ctx.shuffled(new + [1] * ctx.integers(0, 2))
  if new and ctx.flip(0.2) and total:
    new[ctx.integers(0, len(new) - 1)] = -1
  f = ctx.choice([tuple, list, np.array])
  arg = f(new) if new else ()
  return (ctx.array(s, dt),), lambda B, x: B.reshape(x, arg), \
      lambda x: np.reshape(x, tuple(new)), new


def op_transpose(ctx, dt):
  s = shape(ctx, 0, 4)
  perm = ctx.perm(len(s)) if ctx.flip(0.8) else None
  f = tuple if ctx.flip() else list
  p = None if perm is None else f(perm)
  return (ctx.array(s, dt),), lambda B, x: B.transpose(x, p), \
      lambda x: np.transpose(x, perm), perm


def op_slice(ctx, dt):
  s = shape(ctx, 1, 4)
  start = tuple(ctx.integers(0, d - 1) for d in s)
  size = tuple(ctx.integers(1, d - b) for d, b in zip(s, start))
  return (ctx.array(s, dt),), lambda B, x: B.slice(x, start, size), \
      lambda x: x[tuple(slice(b, b + n) for b, n in zip(start, size))], (
          start, size)


def op_outer(ctx, dt):
  return (ctx.array(shape(ctx, 0, 3), dt), ctx.array(shape(ctx, 0, 3), dt)), \
      lambda B, x, y: B.outer_product(x, y), \
      lambda x, y: np.multiply.outer(x, y), None


def op_einsum(ctx, dt):
  expr, sh = ctx.choice([
      ("ij,jk->ik", ((2, 3), (3, 2))), ("ij,ij->", ((2, 3), (2, 3))),
      ("ii->i", ((3, 3),)), ("ii->", ((3, 3),)), ("ijk,k->ji", ((2, 3, 2),
                                                                (2,))),
      ("i,j->ij", ((2,), (3,))), ("bij,bjk->bik", ((2, 2, 3), (2, 3, 2))),
      ("ij,jk,kl->il", ((2, 2), (2, 3), (3, 2))), ("ij->ji", ((2, 3),)),
      ("ijk->j", ((2, 3, 2),))
  ])
  opt = ctx.choice([True, False])
  return tuple(ctx.array(s, dt) for s in sh), \
      lambda B, *t: B.einsum(expr, *t, optimize=opt), \
      lambda *t: np.einsum(expr, *t), expr


def op_norm(ctx, dt):
  return (ctx.array(shape(ctx, 0, 4), dt),), lambda B, x: B.norm(x), \
      lambda x: np.sqrt(np.sum(np.abs(x)**2)), None


def op_sum(ctx, dt):
  s = shape(ctx, 0, 4)
  r = len(s)
  ax = None
  if ctx.flip(0.7):
    ax = tuple(axes_spec(ctx, r, ctx.integers(0, r)))
  kd = ctx.flip()
  return (ctx.array(s, dt),), lambda B, x: B.sum(x, axis=ax, keepdims=kd), \
      lambda x: np.sum(x, axis=ax, keepdims=kd), (ax, kd)


def op_matmul(ctx, dt):
  batch = shape(ctx, 0, 2)
  m, k, n = [ctx.choice((1, 2, 3)) for _ in range(3)]
  return (ctx.array(batch + (m, k), dt), ctx.array(batch + (k, n), dt)), \
      lambda B, x, y: B.matmul(x, y), lambda x, y: x @ y, None


def op_diagonal(ctx, dt):
  s = shape(ctx, 2, 4, dims=(1, 2, 3, 4))
  off = ctx.integers(-s[-2] + 1, s[-1] - 1)
  if ctx.flip(0.5):
    return (ctx.array(s, dt),), lambda B, x: B.diagonal(x, offset=off), \
        lambda x: np.diagonal(x, off, -2, -1), off
  a1, a2 = axes_spec(ctx, len(s), 2)
  off = ctx.choice([0, 0, min(s[a2] - 1, 1)])

  def call(B, x):
    if B.name == "tensorflow" and (a1, a2) != (-2, -1):
      ctx.rejects(lambda: B.diagonal(x, offset=off, axis1=a1, axis2=a2),
                  "TensorFlow diagonal with other axes")
      return np.diagonal(to_np(x), off, a1, a2)
    return B.diagonal(x, offset=off, axis1=a1, axis2=a2)

  return (ctx.array(s, dt),), call, \
      lambda x: np.diagonal(x, off, a1, a2), (off, a1, a2)


def op_diagflat(ctx, dt):
  k = ctx.integers(-2, 2)
  return (ctx.array(shape(ctx, 1, 3, dims=(1, 2, 3)), dt),), \
      lambda B, x: B.diagflat(x, k=k), lambda x: np.diagflat(x, k), k


def op_trace(ctx, dt):
  s = list(shape(ctx, 2, 4))
  if ctx.flip():
    s[-1] = s[-2]
    return (ctx.array(s, dt),), lambda B, x: B.trace(x), \
        lambda x: np.trace(x, 0, -2, -1), None
  a1, a2 = axes_spec(ctx, len(s), 2)
  s[a1] = s[a2]
  off = ctx.choice([0, 0, 1])

  def call(B, x):
    if B.name == "tensorflow" and off:
      ctx.rejects(lambda: B.trace(x, offset=off, axis1=a1, axis2=a2),
                  "TensorFlow trace with an offset")
      return np.trace(to_np(x), off, a1, a2)
    return B.trace(x, offset=off, axis1=a1, axis2=a2)

  return (ctx.array(s, dt),), call, lambda x: np.trace(x, off, a1, a2), (
      off, a1, a2)


def op_pivot(ctx, dt):
  s = shape(ctx, 1, 4)
  p = ctx.integers(0, len(s)) if ctx.flip(0.8) else -1
  q = p if p >= 0 else len(s) - 1
  return (ctx.array(s, dt),), lambda B, x: B.pivot(x, pivot_axis=p), \
      lambda x: x.reshape(int(np.prod(s[:q])), int(np.prod(s[q:]))), p


def op_bright(ctx, dt):
  s = shape(ctx, 1, 4)
  return (ctx.array(s, dt), ctx.array(s[-1:], dt)), \
      lambda B, x, y: B.broadcast_right_multiplication(x, y), \
      lambda x, y: np.einsum("...i,i->...i", x, y), None


def op_bleft(ctx, dt):
  s = shape(ctx, 1, 4)
  return (ctx.array(s[:1], dt), ctx.array(s, dt)), \
      lambda B, x, y: B.broadcast_left_multiplication(x, y), \
      lambda x, y: np.einsum("i,i...->i...", x, y), None


def op_arith(ctx, dt):
  s = shape(ctx, 0, 3)
  name = ctx.choice(["addition", "subtraction", "multiply", "divide"])
  s2 = s
  if s and ctx.flip(0.3):
    s2 = tuple(1 if ctx.flip() else d for d in s)
  a, b = ctx.array(s, dt), ctx.array(s2, dt)
  if name == "divide":
    b = b + np.where(np.abs(b) < 0.3, 1, 0).astype(dt)
  o = {"addition": np.add, "subtraction": np.subtract,
       "multiply": np.multiply, "divide": np.divide}[name]
  return (a, b), lambda B, x, y: getattr(B, name)(x, y), o, (name, s2)


def op_elementwise(ctx, dt):
  name = ctx.choice(["sin", "cos", "exp", "log", "sqrt", "abs", "sign",
                     "conj"])
  a = ctx.array(shape(ctx, 0, 4), dt)
  if name in ("log", "sqrt") and np.dtype(dt).kind == "f":
    a = np.abs(a) + np.asarray(0.1, dt)
  if name == "sqrt" and ctx.flip(0.2):
    a = a * 0
  if name == "sign" and ctx.flip(0.2):
    a = a * (np.abs(a) > 0.7)
  a = np.asarray(a, dt)

  def sign(x):
    m = np.abs(x)
    return np.where(m == 0, 0, x / np.where(m == 0, 1, m)).astype(x.dtype)

  o = sign if name == "sign" else getattr(np, name)
  return (a,), lambda B, x: getattr(B, name)(x), o, name


def op_power(ctx, dt):
  a = np.abs(ctx.array(shape(ctx, 0, 3), dt)).astype(dt) + np.asarray(0.2, dt)
  b = ctx.choice([2.0, 0.5, -1.0, "t"])
  if b == "t":
    e = ctx.array(a.shape, dt)
    return (a, e), lambda B, x, y: B.power(x, y), np.power, b
  return (a,), lambda B, x: B.power(x, b), \
      lambda x: np.power(x, np.asarray(b, dt)), b


def op_matfun(ctx, dt):
  n = ctx.integers(1, 4)
  a = ctx.array((n, n), dt)
  if ctx.flip():
    a = (a + 4 * np.eye(n)).astype(dt)
    return (a,), lambda B, x: B.inv(x), np.linalg.inv, "inv"
  a = (a * 0.5).astype(dt)
  return (a,), lambda B, x: B.expm(x), scipy.linalg.expm, "expm"


def op_index_update(ctx, dt):
  s = shape(ctx, 0, 3)
  a = ctx.array(s, dt)
  v = ctx.choice([0.0, 1.5, -2.0])
  mask = np.abs(a) > 0.8

  def call(B, x):
    m = B.convert_to_tensor(np.asarray(mask))
    val = v if B.name != "tensorflow" else B.convert_to_tensor(
        np.asarray(v, dt))
    return B.index_update(x, m, val)

  return (a,), call, lambda x: np.where(mask, np.asarray(v, dt), x), v


def op_shapes(ctx, dt):
  s = shape(ctx, 0, 4)
  a = ctx.array(s, dt)

  def call(B, x):
    ctx.eq(tuple(B.shape_tuple(x)), s, "shape_tuple on " + B.name)
    ctx.eq(tuple(B.sparse_shape(x)), s, "sparse_shape on " + B.name)
    ctx.eq(tuple(int(d) for d in np.asarray(B.shape_tensor(x))), s,
           "shape_tensor on " + B.name)
    ctx.eq(int(B.shape_prod(B.shape_tensor(x))), int(np.prod(s)),
           "shape_prod on " + B.name)
    t = B.shape_tensor(x)
    both = B.shape_concat([t, t], axis=-1) if s else ()
    ctx.eq(tuple(int(d) for d in np.asarray(both)), s + s,
           "shape_concat on " + B.name)
    return x

  return (a,), call, lambda x: x, None


def op_item(ctx, dt):
  a = ctx.array((1,) * ctx.integers(0, 3), dt)

  def call(B, x):
    v = B.item(x)
    ctx.check(np.shape(to_np(v)) == (), "item on %s has shape %s", B.name,
              np.shape(to_np(v)))
    return to_np(v).astype(dt)

  return (a,), call, lambda x: x.reshape(()), None


def op_convert(ctx, dt):
  a = ctx.array(shape(ctx, 0, 4), dt)
  return (a,), lambda B, x: B.convert_to_tensor(x), lambda x: x, None


def op_eigh(ctx, dt):
  n = ctx.integers(1, 5)
  a = ctx.array((n, n), dt)
  a = (a + a.conj().T).astype(dt)

  def call(B, x):
    w, v = B.eigh(x)
    w, v = to_np(w), to_np(v)
    tol = 1e-3 if a.dtype in (np.float32, np.complex64) else 1e-9
    ctx.close(v.conj().T @ v, np.eye(n), "eigh on %s: vectors not unitary" %
              B.name, tol=tol)
    ctx.close(a @ v, v * w, "eigh on %s: A v != v w" % B.name, tol=tol)
    ctx.check(np.all(np.diff(w.real) >= -tol), "eigh on %s: eigenvalues not "
              "ascending: %s", B.name, w)
    return x

  return (a,), call, lambda x: x, None


def op_eye(ctx, dt):
  n, m = ctx.integers(1, 4), ctx.choice([None, 1, 2, 3, 5])
  s = shape(ctx, 0, 3)

  def call(B, x):
    d = x.dtype
    ctx.close(to_np(B.eye(n, dtype=d, M=m)), np.eye(n, m, dtype=dt), "eye on "
              + B.name)
    ctx.close(to_np(B.ones(s, dtype=d)), np.ones(s, dt), "ones on " + B.name)
    ctx.close(to_np(B.zeros(s, dtype=d)), np.zeros(s, dt), "zeros on " +
              B.name)
    for r in (B.eye(n, dtype=d, M=m), B.ones(s, dtype=d), B.zeros(s, dtype=d)):
      ctx.eq(to_np(r).dtype, np.dtype(dt), "dtype on " + B.name)
    ctx.eq(to_np(B.eye(n)).dtype, np.dtype(np.float64), "default dtype")
    return x

  return (ctx.array((), dt),), call, lambda x: x, (n, m, s)


def op_eps(ctx, dt):

  def call(B, x):
    d = x.dtype if B.name != "tensorflow" else dt
    ctx.check(float(B.eps(d)) == float(np.finfo(dt).eps), "eps of %s on %s: "
              "%s", dt, B.name, B.eps(d))
    return x

  return (ctx.array((), dt),), call, lambda x: x, None


OPS = {f[3:]: g for f, g in list(globals().items()) if f.startswith("op_")}
NO_DTYPE = ("power",)


def case_op(ctx, only=None):
  name = only or ctx.choice(sorted(OPS))
  dt = ctx.choice(FLOATS)
  inputs, call, oracle, sig = OPS[name](ctx, dt)
  with np.errstate(all="ignore"):
    want = np.asarray(oracle(*[np.array(x) for x in inputs]))
  tol = 5e-4 if np.dtype(dt) in (np.float32, np.complex64) else 1e-9
  if name == "matfun":
    tol *= 20
  ctx.note(name, sig, [x.shape for x in inputs], np.dtype(dt).name)
  ctx.sig(name, sig, [x.shape for x in inputs], np.dtype(dt).name)
  for b in BACKENDS:
    if b != "numpy" and ctx.rng.random() < (0.5 if b == "tensorflow" else
                                            0.8):
      continue
    if b == "tensorflow" and any(x.size == 0 for x in inputs):
      continue
    args = [conv(ctx, b, x) for x in inputs]
    frozen = Frozen(**{"arg%d" % i: x for i, x in enumerate(args)})
    with np.errstate(all="ignore"):
      res = call(be(b), *args)
      again = call(be(b), *args) if ctx.flip(0.1) else None
    frozen.verify(ctx, "%s on %s" % (name, b))
    got = to_np(res)
    what = "%s(%s) on %s %s" % (name, sig, b, np.dtype(dt).name)
    ctx.close(got, want, what, tol=tol)
    if name not in NO_DTYPE and (name, b) != ("norm", "tensorflow"):
      ctx.check(got.dtype == want.dtype, "%s: dtype %s, expected %s", what,
                got.dtype, want.dtype)
    if again is not None:
      ctx.close(to_np(again), want, what + " repeated", tol=tol)
    ctx.obs("op_%s" % name)
    ctx.obs("backend_" + b)


def case_rejects(ctx):
  b = ctx.choice(BACKENDS)
  B = be(b)
  t = lambda *s: B.convert_to_tensor(ctx.array(s))
  n = ctx.integers(2, 3)
  bad = {
      "slice with lengths that differ": lambda: B.slice(t(3, 3), (0, 0), (1,)),
      "inv of order 3": lambda: B.inv(t(2, 2, 2)),
      "expm of order 3": lambda: B.expm(t(2, 2, 2)),
      "expm of a rectangle": lambda: B.expm(t(2, 3)),
      "matmul with a vector": lambda: B.matmul(t(2, 2), t(2)),
      "matmul with a mismatch": lambda: B.matmul(t(2, 3), t(2, 3)),
      "right multiplication by a matrix":
          lambda: B.broadcast_right_multiplication(t(n, n), t(n, n)),
      "left multiplication by a matrix":
          lambda: B.broadcast_left_multiplication(t(n, n), t(n, n)),
      "tensordot with mismatched dimensions":
          lambda: B.tensordot(t(2, 3), t(2, 3), ([1], [0])),
      "full tensordot with mismatched dimensions":
          lambda: B.tensordot(t(2, 3), t(2, 3), ([0, 1], [1, 0])),
      "full tensordot with a mismatched dimension of size 1":
          lambda: B.tensordot(t(1, 3), t(2, 3), ([0, 1], [0, 1])),
      "tensordot with axis lists of different length":
          lambda: B.tensordot(t(2, 2), t(2, 2), ([0, 1], [0])),
      "reshape to another size": lambda: B.reshape(t(2, 3), (4, 2)),
      "transpose with a repeated axis": lambda: B.transpose(t(2, 3), (0, 0)),
      "pivot beyond the order": lambda: B.pivot(t(2, 3), 4),
      "trace over one axis": lambda: B.trace(t(2, 2), axis1=1, axis2=1),
      "trace over one axis by two names":
          lambda: B.trace(t(2, 2), axis1=1, axis2=-1),
      "diagonal of one axis": lambda: B.diagonal(t(2, 2), axis1=1, axis2=1),
      "item of several elements": lambda: B.item(t(2)),
      "einsum with a mismatch": lambda: B.einsum("ij,jk->ik", t(2, 3),
                                                 t(2, 3)),
  }
  if b == "tensorflow":
    # TensorFlow's own tensordot only compares the number of elements
    del bad["full tensordot with mismatched dimensions"]
  else:
    bad["conversion of a string list"] = lambda: B.convert_to_tensor(
        ["a", "b"])
  what = ctx.choice(sorted(bad))
  ctx.rejects(bad[what], "%s on %s" % (what, b))
  ctx.sig(b, what)
  ctx.obs("rejected_on_" + b)


def case_serialize(ctx):
  B = be("numpy")
  dt = ctx.choice([np.float64, np.complex128, np.float32, np.int64, np.bool_,
                   np.uint8, np.float16, np.dtype(">f8")])
  a = ctx.array(shape(ctx, 0, 4, zero=True), np.dtype(dt))
  if a.ndim and ctx.flip():
    a = a.T
  if np.dtype(dt).kind == "f" and a.size and ctx.flip(0.3):
    a = a.copy()
    a.flat[0] = ctx.choice([np.nan, np.inf, -0.0])
  frozen = Frozen(a=a)
  s = B.serialize_tensor(a)
  ctx.check(isinstance(s, str), "serialize_tensor returned %s", type(s))
  r = B.deserialize_tensor(s)
  frozen.verify(ctx, "serialize_tensor")
  ctx.check(r.dtype == a.dtype and r.shape == a.shape and
            np.ascontiguousarray(r).tobytes() ==
            np.ascontiguousarray(a).tobytes(), "serialisation changed %s %s",
            a.dtype, a.shape)
  for b in ("tensorflow", "jax"):
    ctx.rejects(lambda: be(b).serialize_tensor(be(b).convert_to_tensor(
        np.ones(2))), "serialize on " + b, (NotImplementedError,))
  ctx.sig(np.dtype(dt).name, a.shape)
  ctx.obs("serialisations")


def case_tensordot2(ctx):
  """The TensorFlow-specific tensordot, static and dynamic shapes."""
  import tensorflow as tf
  from tensornetwork.backends.tensorflow import tensordot2
  dt = ctx.choice([np.float32, np.float64, np.complex64])
  inputs, _, _, axes = op_tensordot(ctx, dt)
  a, b = inputs
  want = np.tensordot(a, b, axes)
  mode = ctx.choice(["eager", "eager", "eager", "static", "dynamic"])
  ctx.sig(mode, axes, a.shape, b.shape)
  ctx.note(mode, axes, a.shape, b.shape)
  if mode == "eager":
    res = tensordot2.tensordot(tf, tf.constant(a), tf.constant(b), axes)
  else:
    sig = []
    for x in (a, b):
      s = [None if mode == "dynamic" and ctx.flip() else d for d in x.shape]
      sig.append(tf.TensorSpec(s, x.dtype))
    f = tf.function(lambda x, y: tensordot2.tensordot(tf, x, y, axes),
                    input_signature=sig)
    res = f(a, b)
  ctx.close(to_np(res), want, "tensordot2 %s %s %s %s" % (mode, axes, a.shape,
                                                          b.shape), tol=5e-4)
  ctx.eq(to_np(res).dtype, want.dtype, "tensordot2 dtype")
  ctx.obs("tensordot2_" + mode)


CHECK = core.Check(
    "C06",
    [
        core.Group("ops", case_op, 6000, 90000),
        core.Group("tensordot", lambda c: case_op(c, "tensordot"), 600, 8000),
        core.Group("rejects", case_rejects, 800, 4000),
        core.Group("serialize", case_serialize, 300, 3000),
        core.Group("tensordot2", case_tensordot2, 240, 3000),
    ],
    rule="Each primitive on random shapes (rank 0-4, sizes 1-4), float and "
    "complex dtypes, odd memory layouts, on numpy (always), TensorFlow and "
    "jax (sampled), against NumPy/SciPy definitions; distinct by operation, "
    "parameters, shapes and dtype.",
    required=tuple("op_" + k for k in sorted(OPS)) +
    ("rejected_on_numpy", "rejected_on_tensorflow", "rejected_on_jax",
     "serialisations", "tensordot2_eager", "tensordot2_dynamic"),
    setup=nets.setup_jax)
