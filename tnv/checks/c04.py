"""C04: ncon evaluates exactly the Einstein sum its labels describe."""
import numpy as np
import tensornetwork as tn

from tnv import core, nets
from tnv.dense import Frozen, esum, to_np

INT_LABELS = [1, 2, 3, 4, 5, 7, 11, 20, 100, 1001]
STR_LABELS = ["a", "b", "B", "10", "2", "z9", "rick", "Z", "1", "aa"]
OPEN_INT = [-1, -2, -3, -4, -7, -10, -33]
OPEN_STR = ["-a", "-b", "-B", "-10", "-2", "-rick", "-Z"]


def default_out(labels):
  """Documented order: descending numbers, then ascending ASCII strings."""
  seen = {l for ls in labels for l in ls}
  ints = sorted([l for l in seen if not isinstance(l, str) and l < 0],
                reverse=True)
  strs = sorted([l for l in seen if isinstance(l, str) and l[0] == "-"])
  return ints + strs


def closed(labels):
  out = []
  for ls in labels:
    for l in ls:
      c = l[0] != "-" if isinstance(l, str) else l > 0
      if c and l not in out:
        out.append(l)
  return out


def gen(ctx, style, maxt=5, maxrank=4, dims=(1, 2, 3), batch=True):
  """A random accepted specification: labels per tensor and dimensions."""
  n = ctx.choice([1, 2, 2, 3, 3, 4, maxt])
  legs = [[] for _ in range(n)]
  room = lambda: [i for i in range(n) if len(legs[i]) < maxrank]
  if style == "int":
    cl, ol = ctx.shuffled(INT_LABELS), ctx.shuffled(OPEN_INT)
  elif style == "plain":
    cl, ol = list(range(1, 12)), list(range(-1, -9, -1))
  elif style == "str":
    cl, ol = ctx.shuffled(STR_LABELS), ctx.shuffled(OPEN_STR)
  else:
    cl = ctx.shuffled(INT_LABELS[:6] + STR_LABELS)
    ol = ctx.shuffled(OPEN_INT[:4] + OPEN_STR)
  dim = {}
  feats = set()
  if style == "plain":
    cl = cl[::-1]
    ol = ol[::-1]
  for _ in range(ctx.integers(0, 6)):
    kind = ctx.choice(["pair"] * 6 + ["trace", "single", "single"] +
                      (["batch", "batch", "diag"] if batch else []))
    r = room()
    if not r or not cl:
      break
    l = cl.pop()
    dim[l] = ctx.choice(dims)
    if kind == "single":
      legs[ctx.choice(r)].append(l)
    elif kind == "trace":
      i = ctx.choice(r)
      if len(legs[i]) + 2 > maxrank:
        legs[i].append(l)
        kind = "single"
      else:
        legs[i] += [l, l]
    elif kind == "pair":
      if len(r) < 2:
        legs[r[0]].append(l)
        kind = "single"
      else:
        for i in ctx.subset(r, 2):
          legs[i].append(l)
    elif kind == "batch":
      k = min(len(r), ctx.integers(2, 4))
      for i in ctx.subset(r, k):
        legs[i].append(l)
      kind = "batch%d" % k
    else:
      for _ in range(ctx.integers(2, 4)):
        r = room()
        if r:
          legs[ctx.choice(r)].append(l)
    feats.add(kind)
  for _ in range(ctx.integers(0, 4)):
    r = room()
    if not r or not ol:
      break
    l = ol.pop()
    dim[l] = ctx.choice(dims)
    k = 1
    if batch and ctx.flip(0.3):
      k = ctx.integers(2, 3)
    if k > 1:
      feats.add("openbatch")
    if k > 1 and ctx.flip(0.25):
      feats.add("opendiag")
      i = ctx.choice(r)
      for _ in range(k):
        if len(legs[i]) < maxrank:
          legs[i].append(l)
    else:
      for i in ctx.subset(r, min(k, len(r))):
        legs[i].append(l)
  legs = [ctx.shuffled(x) for x in legs]
  dim = {l: d for l, d in dim.items() if any(l in x for x in legs)}
  return legs, dim, feats


def orders(ctx, labels):
  """Random valid con_order/out_order, or None."""
  con = out = None
  c = closed(labels)
  if ctx.flip(0.6):
    con = ctx.shuffled(c)
  o = default_out(labels)
  if ctx.flip(0.5):
    out = ctx.shuffled(o)
  return con, out


def lists(ctx, labels, arrays, con, out):
  """The same specification in list or tuple form."""
  f = lambda x: (tuple(x) if ctx.flip(0.3) else list(x))
  ns = f([f(l) for l in labels])
  ts = f(arrays)
  return ts, ns, (None if con is None else f(con)), (None if out is None else
                                                     f(out))


def _case(ctx, backend, style=None, **kw):
  style = style or ctx.choice(["int", "plain", "str", "mixed"])
  labels, dim, feats = gen(ctx, style, **kw)
  dtype = ctx.choice([np.float64, np.complex128] if backend == "numpy" else
                     [np.float32, np.float64, np.complex64])
  arrays = [ctx.array([dim[l] for l in ls], dtype) for ls in labels]
  if backend == "numpy" and ctx.flip(0.2):
    # non-contiguous, read-only or shared inputs
    arrays = [np.asfortranarray(a) if a.ndim else a for a in arrays]
    for a in arrays:
      a.setflags(write=False)
  con, out = orders(ctx, labels)
  want = esum(arrays, labels, out if out is not None else default_out(labels))
  ctx.note(backend, labels, "con", con, "out", out)
  ctx.sig(backend, sorted(feats), [len(l) for l in labels], con is None,
          out is None, labels)
  be = tn.backends.backend_factory.get_backend(backend)
  if backend == "numpy":
    ins = list(arrays)
  else:
    ins = [be.convert_to_tensor(a) for a in arrays]
  mode = ctx.choice(["raw", "raw", "Tensor", "mixed"])
  if mode != "raw":
    ins = [tn.Tensor(a, backend=backend) if mode == "Tensor" or ctx.flip()
           else a for a in ins]
  ts, ns, con_, out_ = lists(ctx, labels, ins, con, out)
  frozen = Frozen(tensors=ts, structure=ns, con_order=con_, out_order=out_,
                  arrays=arrays)
  kwargs = {}
  if con_ is not None:
    kwargs["con_order"] = con_
  if out_ is not None:
    kwargs["out_order"] = out_
  if ctx.flip(0.2):
    kwargs["check_network"] = False
  b = ctx.choice(["name", "object", "default"])
  if b == "default":
    with tn.DefaultBackend(backend):
      res = tn.ncon(ts, ns, **kwargs)
  else:
    res = tn.ncon(ts, ns, backend=backend if b == "name" else be, **kwargs)
  if all(isinstance(t, tn.Tensor) for t in ts):
    ctx.check(isinstance(res, tn.Tensor) and res.backend.name == backend,
              "ncon of Tensors returned %s", type(res).__name__)
  else:
    ctx.check(not isinstance(res, tn.Tensor),
              "ncon of backend tensors returned a Tensor")
  ctx.close(to_np(res), want, "ncon %s con=%s out=%s" % (labels, con, out))
  ctx.eq(to_np(res).dtype, want.dtype if arrays else None, "dtype")
  frozen.verify(ctx, "ncon")
  ctx.obs("ncon_" + backend)
  for f in feats:
    ctx.obs("feature_" + f)
  # another contraction order, another spelling: same value
  if ctx.flip(0.4):
    con2 = ctx.shuffled(closed(labels))
    res2 = tn.ncon(list(ts), ns, con_order=con2, out_order=out_,
                   backend=backend)
    ctx.close(to_np(res2), want, "ncon with con_order %s" % con2)
    ctx.obs("orders_compared")
  if ctx.flip(0.4):
    ren = {}
    base = ctx.choice([1, 5, 40])
    for i, l in enumerate(closed(labels)):
      ren[l] = base + 3 * i if ctx.flip() else "x%d" % i
    o = out if out is not None else default_out(labels)
    for i, l in enumerate(ctx.shuffled(o)):
      ren[l] = -base - 2 * i if ctx.flip() else "-y%d" % i
    res3 = tn.ncon(ts, [[ren[l] for l in ls] for ls in labels],
                   out_order=[ren[l] for l in o], backend=backend)
    ctx.close(to_np(res3), want, "ncon with renamed labels")
    ctx.obs("spellings_compared")
  frozen.verify(ctx, "repeated ncon")


def case_numpy(ctx):
  _case(ctx, "numpy")


def case_pairs(ctx):
  _case(ctx, "numpy", batch=False, maxt=7, dims=(1, 2, 2, 3))


def case_many(ctx):
  """Many tensors and labels: numbers of several digits, up to 50 labels."""
  n = ctx.integers(6, 16)
  style = ctx.choice(["int", "int", "str", "mixed"])
  nc, no = ctx.integers(14, 34), ctx.integers(8, 14)
  num = ctx.flip()
  ints = list(range(1, nc + 1)) if num else ctx.subset(range(1, 3000), nc)
  spell = lambda i, sign: (sign * i if style == "int" or
                           (style == "mixed" and ctx.flip()) else
                           ("-" if sign < 0 else "") + ctx.choice(
                               ["%d", "x%d", "X%d", "%da"]) % i)
  cl = [spell(i, 1) for i in ints]
  oints = list(range(1, no + 1)) if num else ctx.subset(range(1, 3000), no)
  ol = [spell(i, -1) for i in oints]
  legs = [[] for _ in range(n)]
  dim = {}
  big = ctx.integers(4, 8)      # labels of dimension two
  twos = set(ctx.subset(cl + ol, min(big, len(cl))))
  for l in cl:
    dim[l] = 2 if l in twos else 1
    k = ctx.choice([2, 2, 2, 2, 2, 1, 3, "trace"])
    if k == "trace":
      legs[ctx.integers(0, n - 1)] += [l, l]
    else:
      for i in ctx.subset(range(n), k):
        legs[i].append(l)
  for l in ol:
    dim[l] = 2 if l in twos else 1
    for i in ctx.subset(range(n), ctx.choice([1, 1, 1, 1, 2])):
      legs[i].append(l)
  legs = [ctx.shuffled(x) for x in legs]
  arrays = [ctx.array([dim[l] for l in ls]) for ls in legs]
  con = ctx.shuffled(cl) if ctx.flip(0.7) else None
  out = ctx.shuffled(ol) if ctx.flip(0.6) else None
  want = esum(arrays, legs, out if out is not None else default_out(legs))
  ctx.note(legs, "con", con, "out", out)
  ctx.sig(legs, con, out)
  res = tn.ncon(arrays, legs, con_order=con, out_order=out)
  ctx.close(to_np(res), want, "ncon of %d tensors and %d labels" %
            (n, len(cl + ol)))
  ctx.obs("many_labels", len(cl + ol))


def case_tf(ctx):
  _case(ctx, "tensorflow", maxt=4, maxrank=3)


def case_jax(ctx):
  _case(ctx, "jax", maxt=4, maxrank=3)


def case_cache(ctx):
  """A history of calls through one backend: no call sees an earlier one."""
  backend = ctx.choice(["numpy", "tensorflow", "jax"])
  a = ctx.array((2, 2, 2))
  specs = []
  for _ in range(3):
    l = [ctx.choice([[1, 2, -1], [2, 1, -1], [-1, 1, 2], [1, -1, 2]]),
         ctx.choice([[1, 2, -2], [2, 1, -2], [-2, 1, 2], [1, -2, 2]])]
    specs.append((l, ctx.choice([None, [1, 2], [2, 1]]),
                  ctx.choice([None, [-1, -2], [-2, -1]])))
  for k in range(6):
    l, con, out = ctx.choice(specs)
    b = ctx.array((2, 2, 2))
    res = tn.ncon([a, b], l, con_order=con, out_order=out, backend=backend)
    ctx.close(to_np(res), esum([a, b], l, out or [-1, -2]),
              "call %d of a history on %s: %s %s %s" % (k, backend, l, con,
                                                        out))
  ctx.sig(backend, specs)
  ctx.obs("history_calls", 6)


def case_default_order(ctx):
  """Output order of many open labels, integers and strings mixed."""
  ints = ctx.subset([-1, -2, -3, -5, -9, -10, -11, -20], ctx.integers(0, 4))
  strs = ctx.subset(["-" + s for s in STR_LABELS + ["0", "A1", "a1"]],
                    ctx.integers(0, 4))
  labs = ctx.shuffled(ints + strs)
  if not labs:
    labs = [-1]
  dims = [i + 1 if i < 3 else 2 for i in range(len(labs))]
  cut = ctx.integers(0, len(labs))
  groups = [labs[:cut], labs[cut:]]
  dd = dict(zip(labs, dims))
  arrays = [ctx.array([dd[l] for l in g]) for g in groups]
  want = esum(arrays, groups, default_out(groups))
  res = tn.ncon(arrays, groups)
  ctx.close(to_np(res), want, "default output order of %s" % groups)
  ctx.sig(groups)
  ctx.obs("default_orders")


def case_builder(ctx):
  """Tensor's call syntax builds the same contraction."""
  labels, dim, _ = gen(ctx, ctx.choice(["int", "plain", "str", "mixed"]))
  if any(len(l) == 0 for l in labels):
    raise core.Inconclusive("scalar tensor")
  arrays = [ctx.array([dim[l] for l in ls]) for ls in labels]
  ts = [tn.Tensor(a, backend="numpy") for a in arrays]
  b = ts[0](*labels[0])
  for t, l in zip(ts[1:], labels[1:]):
    b = b @ t(*l)
  res = tn.finalize(b)
  ctx.check(isinstance(res, tn.Tensor), "finalize returned %s",
            type(res).__name__)
  ctx.close(to_np(res), esum(arrays, labels, default_out(labels)),
            "finalize %s" % labels)
  ctx.sig(labels)
  ctx.obs("builders")


def case_rejects(ctx):
  backend = ctx.choice(["numpy"] * 6 + ["tensorflow", "jax"])
  labels, dim, feats = gen(ctx, ctx.choice(["int", "str", "mixed"]))
  arrays = [ctx.array([dim[l] for l in ls]) for ls in labels]
  c, o = closed(labels), default_out(labels)
  kinds = ["ntensors", "nlabels"]
  if c:
    kinds += ["zero", "con_extra", "con_missing", "con_repeat", "con_negative",
              "con_foreign"]
  if o:
    kinds += ["out_missing", "out_repeat", "out_positive", "out_foreign"]
  multi = [l for l in c + o if sum(ls.count(l) for ls in labels) > 1]
  if multi:
    kinds += ["dim", "dim"]
  if any(isinstance(l, str) for l in c + o):
    kinds += ["malformed"]
  kind = ctx.choice(kinds)
  con = out = None
  new = [list(l) for l in labels]
  arr = list(arrays)
  if kind == "ntensors":
    arr = arr + [ctx.array((2,))] if ctx.flip() else arr[:-1]
    if not arr:
      arr = [arrays[0]] * 2
  elif kind == "nlabels":
    i = ctx.integers(0, len(new) - 1)
    if new[i] and ctx.flip():
      new[i] = new[i][:-1]
    else:
      new[i] = new[i] + [ctx.choice([77, -77, "q", "-q"])]
  elif kind == "zero":
    l = ctx.choice(c)
    new = [[0 if x == l else x for x in ls] for ls in new]
  elif kind == "con_extra":
    con = ctx.shuffled(c + [ctx.choice([999, "nope"])])
  elif kind == "con_missing":
    con = ctx.shuffled(c)[1:]
    if not con:  # an empty con_order means "not given"
      raise core.Inconclusive("empty")
  elif kind == "con_repeat":
    con = ctx.shuffled(c)
    con[0:1] = [con[-1]] if len(con) > 1 else [con[0], con[0]]
  elif kind == "con_negative":
    con = ctx.shuffled(c)
    con[0] = ctx.choice([-1, "-a"]) if not o else ctx.choice(o)
  elif kind == "con_foreign":
    con = ctx.shuffled(c)
    con[0] = ctx.choice([999, "nope"])
  elif kind == "out_missing":
    out = ctx.shuffled(o)[1:]
    if not out:
      raise core.Inconclusive("empty")
  elif kind == "out_repeat":
    out = ctx.shuffled(o)
    out[0:1] = [out[-1]] if len(out) > 1 else [out[0], out[0]]
  elif kind == "out_positive":
    out = ctx.shuffled(o)
    out[0] = ctx.choice(c) if c else 3
  elif kind == "out_foreign":
    out = ctx.shuffled(o)
    out[0] = ctx.choice([-999, "-nope"])
  elif kind == "dim":
    l = ctx.choice(multi)
    spots = [(i, k) for i, ls in enumerate(new) for k, x in enumerate(ls)
             if x == l]
    i, k = ctx.choice(spots)
    shape = list(arr[i].shape)
    shape[k] = shape[k] + 1 if shape[k] > 1 or ctx.flip() else 3
    arr[i] = ctx.array(shape)
  elif kind == "malformed":
    l = ctx.choice([l for l in c + o if isinstance(l, str)])
    bad = l + ctx.choice(["-", " ", "_", "!", "-x"])
    new = [[bad if x == l else x for x in ls] for ls in new]
  ctx.note("reject", kind, labels, new, con, out)
  ctx.sig(kind, new, con, out)
  frozen = Frozen(arr=arr, new=new, con=con, out=out)
  ctx.rejects(lambda: tn.ncon(arr, new, con_order=con, out_order=out,
                              backend=backend),
              "ncon with %s: %s con=%s out=%s shapes %s" %
              (kind, new, con, out, [a.shape for a in arr]))
  frozen.verify(ctx, "rejected ncon")
  ctx.obs("rejected_" + kind)


def case_backends(ctx):
  a, b = ctx.array((2, 2)), ctx.array((2, 2))
  t = tn.Tensor(a, backend=ctx.choice(["jax", "tensorflow"]))
  ctx.rejects(lambda: tn.ncon([t, tn.Tensor(b, backend="numpy")],
                              [[-1, 1], [1, -2]], backend="numpy"),
              "Tensors of different backends")
  ctx.rejects(lambda: tn.ncon([a, b], [[-1, 1], [1, -2]], backend="nope"),
              "unknown backend")
  ctx.obs("backend_rejections")


def case_symmetric(ctx):
  """ncon on the symmetric backend against the dense images."""
  from tensornetwork import U1Charge, Index, BlockSparseTensor
  def idx(flow):
    return Index(U1Charge(ctx.rng.integers(-1, 2, size=3)), flow)
  i1, i2, i3 = idx(False), idx(True), idx(False)
  a = BlockSparseTensor.random([i1, i2, i3], dtype=np.float64)
  b = BlockSparseTensor.random([i3.copy().flip_flow(), i1.copy().flip_flow(),
                                i2], dtype=np.float64)
  la, lb = ["x", -2, 5], [5, "x", -1]
  con = ctx.choice([None, [5, "x"], ["x", 5]])
  out = ctx.choice([None, [-1, -2], [-2, -1]])
  res = tn.ncon([a, b], [la, lb], con_order=con, out_order=out,
                backend="symmetric")
  ctx.close(res.todense(), esum([a.todense(), b.todense()], [la, lb],
                                out or [-1, -2]), "symmetric ncon")
  ctx.sig(i1.charges.shape if hasattr(i1.charges, "shape") else 0, con, out,
          a.nnz if hasattr(a, "nnz") else len(a.data))
  ctx.obs("ncon_symmetric")


CHECK = core.Check(
    "C04",
    [
        core.Group("numpy", case_numpy, 4000, 60000),
        core.Group("pairs", case_pairs, 1500, 20000),
        core.Group("many", case_many, 400, 6000),
        core.Group("default_order", case_default_order, 600, 6000),
        core.Group("builder", case_builder, 400, 4000),
        core.Group("rejects", case_rejects, 1500, 15000),
        core.Group("symmetric", case_symmetric, 100, 1000),
        core.Group("backends", case_backends, 16, 32),
        core.Group("cache", case_cache, 40, 300),
        core.Group("tf", case_tf, 240, 2400),
        core.Group("jax", case_jax, 64, 500),
    ],
    rule="Random specifications (pairs, traces, single closed labels, open and "
    "closed batch labels, diagonals, integer/string/mixed spellings, random "
    "con_order and out_order) on all backends; distinct by labels and orders.",
    required=("ncon_numpy", "ncon_tensorflow", "ncon_jax", "feature_batch3",
              "feature_trace", "feature_single", "feature_openbatch",
              "feature_diag", "orders_compared", "spellings_compared",
              "history_calls", "rejected_dim", "builders", "many_labels"),
    setup=nets.setup_jax)
