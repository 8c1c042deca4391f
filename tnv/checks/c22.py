"""C22: the Keras layers compute the dense map they factorise."""
import json
import os
import tempfile
import warnings

import numpy as np

from tnv import core
from tnv.dense import esum

TF = None
K = None
L = {}


def setup():
  global TF, K
  warnings.filterwarnings("ignore")
  import tensorflow as tf
  import tensornetwork.tn_keras.layers as layers
  TF, K = tf, tf.keras
  for n in ("DenseDecomp", "DenseMPO", "DenseCondenser", "DenseExpander",
            "DenseEntangler", "Conv2DMPO"):
    L[n] = getattr(layers, n)
  logger = tf.get_logger()
  logger.setLevel("ERROR")


ACTS = {
    None: lambda x: x,
    "linear": lambda x: x,
    "relu": lambda x: np.maximum(x, 0),
    "tanh": np.tanh,
    "sigmoid": lambda x: 1 / (1 + np.exp(-x)),
    "softplus": lambda x: np.logaddexp(0, x),
    "elu": lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0))),
    "softmax": lambda x: (np.exp(x - x.max(-1, keepdims=True)) /
                          np.exp(x - x.max(-1, keepdims=True)).sum(
                              -1, keepdims=True)),
}


# ---------------------------------------------------------------- references


def ref_decomp(cfg, x, w):
  return x @ w[0] @ w[1]


def ref_mpo(cfg, x, w):
  k = cfg["num_nodes"]
  m = w[0].shape[0]
  t = x.reshape((x.shape[0],) + (m,) * k)
  # labels: batch, i0.., bonds, o0..
  arrs, labs = [t], [["b"] + ["i%d" % j for j in range(k)]]
  for j in range(k):
    lab = ["i%d" % j]
    if j > 0:
      lab.append("s%d" % (j - 1))
    if j < k - 1:
      lab.append("s%d" % j)
    arrs.append(w[j])
    labs.append(lab + ["o%d" % j])
  out = ["b"] + ["o%d" % j for j in range(k)]
  return chain(arrs, labs, out).reshape(x.shape[0], -1)


def chain(arrs, labs, out):
  """Pairwise left-to-right contraction (each label used at most twice)."""
  a, la = arrs[0], labs[0]
  for b, lb in zip(arrs[1:], labs[1:]):
    common = [l for l in la if l in lb]
    a = np.tensordot(a, b, ([la.index(l) for l in common],
                            [lb.index(l) for l in common]))
    la = [l for l in la if l not in common] + [
        l for l in lb if l not in common]
  return a.transpose([la.index(l) for l in out])


def ref_condenser(cfg, x, w):
  e, k = cfg["exp_base"], cfg["num_nodes"]
  d = w[0].shape[0] if w else x.shape[1]
  t = x.reshape((x.shape[0],) + (e,) * k + (d,))
  for a in w:                    # consumes the last two axes
    t = np.einsum("...ed,deo->...o", t, a)
  return t.reshape(x.shape[0], -1)


def ref_expander(cfg, x, w):
  t = x
  for a in w:
    t = np.einsum("...d,deo->...eo", t, a)
  return t.reshape(x.shape[0], -1)


def ref_entangler(cfg, x, w):
  """Node i acts on wires i, i+1 (cyclically).

  contract_between appends the node's free axes behind the remaining ones, so
  the flattened output lists the wires in the order in which they were last
  written.
  """
  k = cfg["num_legs"]
  m = round(x.shape[1]**(1 / k))
  t = x.reshape((x.shape[0],) + (m,) * k)
  wires = list(range(k))          # wires[axis - 1] = wire on that axis
  for i, a in enumerate(w):
    p, q = i % k, (i + 1) % k
    t = np.tensordot(t, a, ([1 + wires.index(p), 1 + wires.index(q)], [0, 1]))
    wires = [v for v in wires if v not in (p, q)] + [p, q]
  return t.reshape(x.shape[0], -1)


def kernel(w):
  k = len(w)
  arrs, labs = [], []
  for j in range(k):
    arrs.append(w[j])
    labs.append(["i%d" % j, "s%d" % j, "s%d" % (j + 1), "o%d" % j])
  out = (["s0", "s%d" % k] + ["i%d" % j for j in range(k)] +
         ["o%d" % j for j in range(k)])
  a = chain(arrs, labs, out)
  ci = int(np.prod(a.shape[2:2 + k], dtype=int))
  return a.reshape(a.shape[0], a.shape[1], ci, -1)


def ref_conv(cfg, x, w):
  """x: NHWC, direct summation."""
  kern = kernel(w)
  n, h, wd, _ = x.shape
  kh, kw = kern.shape[:2]
  sh, sw = cfg["strides"]
  dh, dw = cfg["dilation_rate"]
  eh, ew = (kh - 1) * dh + 1, (kw - 1) * dw + 1
  if cfg["padding"] == "same":
    oh, ow = -(-h // sh), -(-wd // sw)
    ph = max((oh - 1) * sh + eh - h, 0)
    pw = max((ow - 1) * sw + ew - wd, 0)
    x = np.pad(x, ((0, 0), (ph // 2, ph - ph // 2), (pw // 2, pw - pw // 2),
                   (0, 0)))
  else:
    oh, ow = -(-(h - eh + 1) // sh), -(-(wd - ew + 1) // sw)
  out = np.zeros((n, oh, ow, kern.shape[3]))
  for p in range(oh):
    for q in range(ow):
      patch = x[:, p * sh:p * sh + eh:dh, q * sw:q * sw + ew:dw, :]
      out[:, p, q] = np.einsum("nhwc,hwcf->nf", patch, kern)
  return out


REF = {"DenseDecomp": ref_decomp, "DenseMPO": ref_mpo,
       "DenseCondenser": ref_condenser, "DenseExpander": ref_expander,
       "DenseEntangler": ref_entangler, "Conv2DMPO": ref_conv}


# ---------------------------------------------------------------- generators


def powers(ctx, k, top):
  ms = [m for m in range(1, 9) if m**k <= top]
  return ctx.choice(ms)


def gen_dense(ctx, big=False):
  """(layer name, config, input dim, output dim)."""
  name = ctx.choice(["DenseDecomp", "DenseMPO", "DenseCondenser",
                     "DenseExpander", "DenseEntangler"])
  if big:
    name = ctx.choice(["DenseMPO", "DenseMPO", "DenseEntangler"])
  if name == "DenseDecomp":
    din, dout = ctx.integers(1, 9), ctx.integers(1, 9)
    cfg = dict(output_dim=dout, decomp_size=ctx.integers(1, 5))
  elif name == "DenseMPO":
    k = ctx.integers(3, 6 if big else 5)
    m, o = powers(ctx, k, 20000 if big else 300), powers(
        ctx, k, 20000 if big else 300)
    if big and ctx.flip():
      o = ctx.integers(1, 2)
    din, dout = m**k, o**k
    cfg = dict(output_dim=dout, num_nodes=k,
               bond_dim=1 if big else ctx.integers(1, 3))
  elif name == "DenseCondenser":
    e, k, dout = ctx.integers(1, 3), ctx.integers(1, 4), ctx.integers(1, 4)
    din = dout * e**k
    cfg = dict(exp_base=e, num_nodes=k)
  elif name == "DenseExpander":
    e, k, din = ctx.integers(1, 3), ctx.integers(1, 4), ctx.integers(1, 4)
    dout = din * e**k
    cfg = dict(exp_base=e, num_nodes=k)
  else:
    k = ctx.integers(2, 5 if big else 4)
    m, o = powers(ctx, k, 4000 if big else 100), powers(
        ctx, k, 4000 if big else 100)
    din, dout = m**k, o**k
    cfg = dict(output_dim=dout, num_legs=k,
               num_levels=1 if big else ctx.integers(1, 3))
  return name, cfg, din, dout


def common(ctx, cfg):
  cfg["use_bias"] = ctx.flip(0.7)
  cfg["activation"] = ctx.choice(sorted(ACTS, key=str))
  if ctx.flip(0.3):
    cfg["kernel_initializer"] = ctx.choice(["random_normal", "ones",
                                            "he_uniform"])
  if ctx.flip(0.3):
    cfg["bias_initializer"] = ctx.choice(["ones", "random_uniform"])
  if ctx.flip(0.6):
    cfg["dtype"] = "float64"
  if ctx.flip(0.2):
    cfg["name"] = "layer_" + str(ctx.integers(0, 99))
  if ctx.flip(0.15):
    cfg["trainable"] = False
  return cfg


def randomise(ctx, layer):
  ws = [ctx.array(tuple(v.shape), "float64") for v in layer.get_weights()]
  layer.set_weights(ws)
  return [np.asarray(w, float) for w in layer.get_weights()]


def tol_of(layer, scale):
  eps = 1e-10 if layer.dtype == "float64" else 2e-5
  return eps * max(1.0, scale)


def reference(name, cfg, x, ws):
  ws = list(ws)
  bias = ws.pop() if cfg["use_bias"] else None
  y = REF[name](cfg, np.asarray(x, float), ws)
  mag = REF[name](cfg, np.abs(np.asarray(x, float)), [np.abs(w) for w in ws])
  scale = float(mag.max()) if mag.size else 1.0
  if bias is not None:
    y = y + bias
    scale += float(np.abs(bias).max())
  return ACTS[cfg["activation"]](y), scale


def compare(ctx, layer, name, cfg, x, ws, got, what):
  """x and got as passed to / returned by the layer."""
  x = np.asarray(x, float)
  if name == "Conv2DMPO":
    cf = cfg["data_format"] == "channels_first"
    xr = x.transpose(0, 2, 3, 1) if cf else x
    if cf and cfg["activation"] == "softmax":
      raise core.Inconclusive("softmax over the channel axis")
    want, scale = reference(name, cfg, xr, ws)
    if cf:
      want = want.transpose(0, 3, 1, 2)
  else:
    flat = x.reshape(-1, x.shape[-1])
    want, scale = reference(name, cfg, flat, ws)
    want = want.reshape(x.shape[:-1] + (want.shape[-1],))
  got = np.asarray(got)
  ctx.eq(got.dtype, np.dtype(layer.dtype), what + ": dtype")
  ctx.close(got, want, what, tol=tol_of(layer, scale))
  ctx.eq(tuple(layer.compute_output_shape(tuple(x.shape))), want.shape,
         what + ": compute_output_shape")
  ctx.eq(tuple(layer.compute_output_shape((None,) + tuple(x.shape[1:]))),
         (None,) + want.shape[1:], what + ": compute_output_shape (no batch)")
  return want


def batch(ctx):
  return tuple(ctx.integers(1, 3) for _ in range(ctx.choice([1, 1, 1, 2, 3])))


def check_initial(ctx, layer, cfg):
  ws = [np.asarray(w) for w in layer.get_weights()]
  if cfg["use_bias"]:
    b = ws.pop()
    ini = cfg.get("bias_initializer", "zeros")
    if ini == "zeros":
      ctx.check(not b.any(), "the initial bias is not zero")
    elif ini == "ones":
      ctx.check((b == 1).all(), "the initial bias is not one")
  for w in ws:
    if cfg.get("kernel_initializer") == "ones":
      ctx.check((w == 1).all(), "an initial weight is not one")
    else:
      ctx.check(w.any(), "an initial weight is zero")
  ctx.eq(len(layer.trainable_weights),
         len(layer.get_weights()) if cfg.get("trainable", True) else 0,
         "number of trainable weights")
  ctx.obs("initialised")


def n_weights(name, cfg):
  if name == "DenseDecomp":
    n = 2
  elif name == "DenseEntangler":
    n = cfg["num_levels"] * (cfg["num_legs"] - 1)
  else:
    n = cfg["num_nodes"]
  return n + bool(cfg["use_bias"])


def roundtrip(ctx, name, cfg, layer, x, got):
  """get_config / from_config and weight transfer reproduce the layer."""
  conf = layer.get_config()
  json.loads(json.dumps(conf))
  for k, v in cfg.items():
    if k in ("kernel_initializer", "bias_initializer", "activation"):
      continue
    c = conf[k]
    if k == "use_bias":
      c, v = bool(c), bool(v)
    ctx.eq(tuple(c) if isinstance(c, (list, tuple)) else c,
           tuple(v) if isinstance(v, (list, tuple)) else v, "config " + k)
  twin = L[name].from_config(conf)
  twin.build((None,) + tuple(x.shape[1:]))
  ctx.eq([tuple(w.shape) for w in twin.get_weights()],
         [tuple(w.shape) for w in layer.get_weights()],
         "weights of the copied layer")
  twin.set_weights(layer.get_weights())
  again = twin(TF.constant(x))
  ctx.close(np.asarray(again), np.asarray(got), "layer rebuilt from its config",
            tol=tol_of(layer, float(np.abs(got).max())))
  same = twin.get_config()
  ctx.eq(json.dumps(same, sort_keys=True, default=str),
         json.dumps(conf, sort_keys=True, default=str),
         "config of the rebuilt layer")
  ctx.obs("config_roundtrips")


def case_dense(ctx):
  name, cfg, din, dout = gen_dense(ctx)
  common(ctx, cfg)
  ctx.sig(name, tuple(sorted((k, str(v)) for k, v in cfg.items())), din)
  ctx.note("%r" % (dict(layer=name, cfg=cfg, din=din),))
  layer = L[name](**cfg)
  dt = layer.dtype
  shape = batch(ctx) + (din,)
  x = ctx.array(shape, dt)
  keep = x.copy()
  first = np.asarray(layer(TF.constant(x)))
  compare(ctx, layer, name, cfg, x, layer.get_weights(), first,
          name + " (initial weights)")
  ctx.eq(len(layer.get_weights()), n_weights(name, cfg), "number of weights")
  check_initial(ctx, layer, cfg)
  ws = randomise(ctx, layer)
  got = np.asarray(layer(TF.constant(x)))
  compare(ctx, layer, name, cfg, x, ws, got, name)
  ctx.eq(got.shape[-1], dout, "output dimension")
  ctx.obs("dense_" + name)
  if ctx.flip(0.4):     # another batch shape through the same layer
    y = ctx.array((ctx.integers(1, 6), din), dt)
    compare(ctx, layer, name, cfg, y, ws, np.asarray(layer(TF.constant(y))),
            name + " (other batch)")
    ctx.obs("rebatched")
  if ctx.flip(0.3):
    f = TF.function(lambda t: layer(t), input_signature=[
        TF.TensorSpec((None,) + shape[1:], dt)])
    compare(ctx, layer, name, cfg, x, ws, np.asarray(f(TF.constant(x))),
            name + " (traced)")
    ctx.obs("traced")
  if ctx.flip(0.4):
    roundtrip(ctx, name, cfg, layer, x, got)
  ctx.check((x == keep).all() and all(
      (np.asarray(a, float) == b).all()
      for a, b in zip(layer.get_weights(), ws)),
            "a call changed the input or the weights")


def case_big(ctx):
  """Large perfect powers: the leg dimension must be the exact root."""
  name, cfg, din, dout = gen_dense(ctx, big=True)
  common(ctx, cfg)
  cfg["activation"] = None
  ctx.sig(name, cfg.get("num_nodes", cfg.get("num_legs")), din, dout)
  ctx.note("%r" % (dict(layer=name, cfg=cfg, din=din),))
  layer = L[name](**cfg)
  x = ctx.array((1, din), layer.dtype)
  layer.build((None, din))
  ws = randomise(ctx, layer)
  got = np.asarray(layer(TF.constant(x)))
  compare(ctx, layer, name, cfg, x, ws, got, name + " (large)")
  ctx.obs("large_powers")


def case_grad(ctx):
  """Gradients of a scalar of the output, against a directional derivative."""
  name, cfg, din, _ = gen_dense(ctx)
  common(ctx, cfg)
  cfg.update(activation=ctx.choice([None, "tanh", "sigmoid"]), dtype="float64",
             trainable=True)
  ctx.sig(name, tuple(sorted((k, str(v)) for k, v in cfg.items())), din)
  ctx.note("%r" % (dict(layer=name, cfg=cfg, din=din),))
  layer = L[name](**cfg)
  x = ctx.array((ctx.integers(1, 3), din))
  layer.build((None, din))
  ws = randomise(ctx, layer)
  ws = [0.7 * w for w in ws]
  layer.set_weights(ws)
  xt = TF.constant(x)
  with TF.GradientTape() as tape:
    tape.watch(xt)
    y = layer(xt)
    c = np.random.RandomState(ctx.integers(0, 2**31 - 1)).randn(*y.shape)
    s = TF.reduce_sum(y * c)
  gs = tape.gradient(s, [xt] + list(layer.trainable_weights))
  ctx.check(all(g is not None for g in gs), "a weight has no gradient")
  order = [next(i for i, w in enumerate(layer.weights) if w is v)
           for v in layer.trainable_weights]
  dirs = [ctx.array(x.shape)] + [ctx.array(w.shape) for w in ws]

  def val(h):
    p = [w + h * d for w, d in zip(ws, dirs[1:])]
    out, _ = reference(name, cfg, x + h * dirs[0], p)
    return float((out * c).sum())

  h = 1e-4
  want = (8 * (val(h) - val(-h)) - (val(2 * h) - val(-2 * h))) / (12 * h)
  got = float(np.sum(np.asarray(gs[0]) * dirs[0])) + sum(
      float(np.sum(np.asarray(g) * dirs[1 + i])) for g, i in zip(gs[1:], order))
  size = sum(float(np.abs(np.asarray(g) * d).sum())
             for g, d in zip([gs[0]] + [gs[1 + order.index(i)]
                                        for i in range(len(ws))], dirs))
  ctx.close(got, want, name + ": directional derivative",
            tol=1e-6 * max(1.0, size))
  ctx.obs("gradients")


def gen_conv(ctx):
  k = ctx.integers(2, 4)
  top = 16 if k < 4 else 81
  m, o = powers(ctx, k, top), powers(ctx, k, top)
  cfg = dict(filters=o**k, num_nodes=k, bond_dim=ctx.integers(1, 3),
             kernel_size=(ctx.integers(1, 4), ctx.integers(1, 4)),
             strides=(1, 1), dilation_rate=(1, 1),
             padding=ctx.choice(["same", "valid"]),
             data_format="channels_last")
  how = ctx.choice(["plain", "stride", "dilate"])
  if how == "stride":
    cfg["strides"] = (ctx.integers(1, 3), ctx.integers(1, 3))
  elif how == "dilate":
    cfg["dilation_rate"] = (ctx.integers(1, 3), ctx.integers(1, 3))
  common(ctx, cfg)
  need = [(a - 1) * d + 1 for a, d in zip(cfg["kernel_size"],
                                          cfg["dilation_rate"])]
  space = tuple((n if cfg["padding"] == "valid" else 1) + ctx.integers(0, 4)
                for n in need)
  return cfg, (ctx.integers(1, 3),) + space + (m**k,)


def case_conv(ctx):
  cfg, shape = gen_conv(ctx)
  ctx.sig(tuple(sorted((k, str(v)) for k, v in cfg.items())), shape[1:])
  ctx.note("%r" % (dict(cfg=cfg, shape=shape),))
  pas = dict(cfg)
  for k in ("kernel_size", "strides", "dilation_rate"):
    if pas[k][0] == pas[k][1] and ctx.flip():
      pas[k] = pas[k][0]
  layer = L["Conv2DMPO"](**pas)
  x = ctx.array(shape, layer.dtype)
  first = np.asarray(layer(TF.constant(x)))
  compare(ctx, layer, "Conv2DMPO", cfg, x, layer.get_weights(), first,
          "Conv2DMPO (initial weights)")
  ctx.eq(len(layer.get_weights()), n_weights("Conv2DMPO", cfg),
         "number of weights")
  check_initial(ctx, layer, cfg)
  ws = randomise(ctx, layer)
  got = np.asarray(layer(TF.constant(x)))
  compare(ctx, layer, "Conv2DMPO", cfg, x, ws, got, "Conv2DMPO")
  ctx.obs("conv_" + cfg["padding"])
  if max(cfg["strides"]) > 1:
    ctx.obs("conv_strides")
  if max(cfg["dilation_rate"]) > 1:
    ctx.obs("conv_dilated")
  if ctx.flip(0.4):
    roundtrip(ctx, "Conv2DMPO", cfg, layer, x, got)


def case_channels_first(ctx):
  """NCHW needs a compiled graph on the CPU."""
  cfg, shape = gen_conv(ctx)
  cfg["data_format"] = "channels_first"
  if cfg["activation"] == "softmax":
    cfg["activation"] = "tanh"
  shape = (shape[0], shape[3]) + shape[1:3]
  ctx.sig(tuple(sorted((k, str(v)) for k, v in cfg.items())), shape[1:])
  ctx.note("%r" % (dict(cfg=cfg, shape=shape),))
  layer = L["Conv2DMPO"](**cfg)
  layer.build((None,) + shape[1:])
  ws = randomise(ctx, layer)
  x = ctx.array(shape, layer.dtype)
  f = TF.function(lambda t: layer(t), jit_compile=True)
  got = np.asarray(f(TF.constant(x)))
  compare(ctx, layer, "Conv2DMPO", cfg, x, ws, got,
          "Conv2DMPO (channels_first)")
  ctx.obs("channels_first")


def case_model(ctx):
  """Layers inside models: symbolic inputs, serialisation, weight files."""
  steps = []
  din = None
  first = None
  for _ in range(ctx.integers(1, 3)):
    for _ in range(50):
      name, cfg, i, o = gen_dense(ctx)
      if din is None or i == din:
        break
      if name in ("DenseDecomp",):
        i = din
        break
    else:
      break
    if din is not None and name != "DenseDecomp" and i != din:
      break
    common(ctx, cfg)
    cfg.pop("name", None)
    cfg["dtype"] = "float64"
    cfg["trainable"] = True
    if first is None:
      first = i
    steps.append((name, cfg))
    din = o
  ctx.sig(tuple((n, tuple(sorted((k, str(v)) for k, v in c.items())))
                for n, c in steps))
  ctx.note("%r" % (dict(steps=steps, din=first),))
  inner = tuple(ctx.integers(1, 2) for _ in range(ctx.choice([0, 0, 1])))
  TF.keras.backend.clear_session()
  layers = [L[n](**c) for n, c in steps]
  if ctx.flip():
    inp = K.Input(shape=inner + (first,), dtype="float64")
    t = inp
    for l in layers:
      t = l(t)
    model = K.Model(inp, t)
    how = "functional"
  elif not inner and ctx.flip(0.4):
    layers[0] = L[steps[0][0]](input_dim=first, **steps[0][1])
    model = K.Sequential(layers)
    how = "sequential with input_dim"
    ctx.check(model.built, "a model with input_dim is not built")
  else:
    model = K.Sequential([K.Input(shape=inner + (first,), dtype="float64")] +
                         layers)
    how = "sequential"
  allw = [randomise(ctx, l) for l in layers]
  # predict casts numpy inputs to float32
  x = ctx.array((ctx.integers(1, 3),) + inner + (first,)).astype(
      np.float32).astype(float)
  want, scale = x, 1.0
  for (name, cfg), ws in zip(steps, allw):
    flat = want.reshape(-1, want.shape[-1])
    out, s = reference(name, cfg, flat, ws)
    scale = max(scale, s) * (1 + scale)
    want = out.reshape(want.shape[:-1] + (-1,))
  tol = 1e-10 * max(1.0, scale)
  ctx.eq(tuple(model.output_shape), (None,) + want.shape[1:],
         "model.output_shape")
  ctx.close(np.asarray(model(x)), want, how + " model", tol=tol)
  kind = ctx.choice(["predict", "json", "file", "clone"])
  if kind == "predict":
    got = model.predict(x, batch_size=2, verbose=0)
    ctx.close(got, want, "model.predict", tol=tol)
  elif kind == "json":
    m2 = K.models.model_from_json(model.to_json())
    m2.set_weights(model.get_weights())
    ctx.close(np.asarray(m2(x)), want, "model rebuilt from JSON", tol=tol)
  elif kind == "clone":
    m2 = K.models.clone_model(model)
    m2.set_weights(model.get_weights())
    ctx.close(np.asarray(m2(x)), want, "cloned model", tol=tol)
    z = ctx.array((2,) + inner + (first,))
    m2.set_weights([0 * w for w in m2.get_weights()])
    ctx.close(np.asarray(model(x)), want, "model after its clone changed",
              tol=tol)
  else:
    with tempfile.TemporaryDirectory() as d:
      path = os.path.join(d, ctx.choice(["m.h5", "m.keras", "m_dir"]))
      model.save(path)
      m2 = K.models.load_model(path)
    ctx.close(np.asarray(m2(x)), want, "model loaded from a file", tol=tol)
  ctx.obs("model_" + kind)


def case_invalid(ctx):
  kind = ctx.choice(["mpo_in", "mpo_out", "ent_in", "ent_out", "none", "few",
                     "legs", "levels", "conv_nodes", "conv_pad", "conv_fmt",
                     "conv_in", "conv_out", "conv_none"])
  ctx.sig(kind, ctx.integers(0, 50))
  k = ctx.integers(3, 5)
  m = ctx.integers(2, 3)
  bad = ctx.choice([v for v in range(2, 300)
                    if all(r**k != v for r in range(1, 20))])
  A, V = AssertionError, ValueError
  mpo = lambda **o: L["DenseMPO"](**dict(dict(
      output_dim=m**k, num_nodes=k, bond_dim=2), **o))
  ent = lambda **o: L["DenseEntangler"](**dict(dict(
      output_dim=m**k, num_legs=k, num_levels=1), **o))
  conv = lambda **o: L["Conv2DMPO"](**dict(dict(
      filters=m**k, kernel_size=3, num_nodes=k, bond_dim=2), **o))
  acts = {
      "mpo_in": (lambda: mpo().build((None, bad)), A),
      "mpo_out": (lambda: mpo(output_dim=bad).build((None, m**k)), A),
      "ent_in": (lambda: ent().build((None, bad)), A),
      "ent_out": (lambda: ent(output_dim=bad).build((None, m**k)), A),
      "none": (lambda: ctx.choice([
          mpo(), ent(), L["DenseDecomp"](3, 2), L["DenseExpander"](2, 2),
          L["DenseCondenser"](2, 2)]).build((None, None)), V),
      "few": (lambda: mpo(num_nodes=ctx.integers(0, 2)), A),
      "legs": (lambda: ent(num_legs=ctx.integers(0, 1)), A),
      "levels": (lambda: ent(num_levels=0), A),
      "conv_nodes": (lambda: conv(num_nodes=ctx.integers(0, 1)), V),
      "conv_pad": (lambda: conv(padding="full"), V),
      "conv_fmt": (lambda: conv(data_format="NHWC"), V),
      "conv_in": (lambda: conv().build((None, 5, 5, bad)), A),
      "conv_out": (lambda: conv(filters=bad).build((None, 5, 5, m**k)), A),
      "conv_none": (lambda: conv().build((None, 5, 5, None)), V),
  }
  f, exc = acts[kind]
  ctx.rejects(f, "Keras layer: " + kind, exc)


CHECK = core.Check(
    "C22",
    [
        core.Group("dense", case_dense, 240, 4000),
        core.Group("big", case_big, 60, 600),
        core.Group("grad", case_grad, 60, 800),
        core.Group("conv", case_conv, 200, 3000),
        core.Group("channels_first", case_channels_first, 30, 300),
        core.Group("model", case_model, 50, 800),
        core.Group("invalid", case_invalid, 120, 600),
    ],
    rule="random layer configurations, batch shapes and weights against dense "
         "numpy maps (matrix product / direct convolution); distinct by "
         "configuration and input size",
    required=("dense_DenseDecomp", "dense_DenseMPO", "dense_DenseCondenser",
              "dense_DenseExpander", "dense_DenseEntangler", "conv_same",
              "conv_valid", "conv_strides", "conv_dilated", "channels_first",
              "large_powers", "gradients", "config_roundtrips", "traced",
              "initialised", "rejections"),
    setup=setup,
    assumptions=["inner dimensions of the input are known (only the batch "
                 "dimension may be None)",
                 "inputs of DenseCondenser are divisible by "
                 "exp_base**num_nodes"],
)
