"""C30: the shipped worked examples compute what they claim.

Every example is run on random sizes and inputs and compared with its dense
definition written with numpy only.
"""
import contextlib
import importlib
import io
import itertools
import os
import runpy
import sys
import warnings

import numpy as np
import scipy.linalg
import tensornetwork as tn
from tensornetwork import contractors

from tnv import core, nets
from tnv.checks import c18
from tnv.dense import to_np

EX = {}


def load(name):
  if name not in EX:
    root = os.path.dirname(os.path.dirname(os.path.abspath(tn.__file__)))
    if root not in sys.path:
      sys.path.insert(0, root)
    EX[name] = importlib.import_module("examples." + name)
  return EX[name]


def contractor(ctx, small=True):
  names = ["greedy", "auto", "branch"] + (["optimal"] if small else [])
  k = ctx.choice(names)
  ctx.sig(k)
  if k == "branch":
    return lambda n, o=None: contractors.branch(n, output_edge_order=o,
                                                nbranch=1)
  f = getattr(contractors, k)
  return lambda n, o=None: f(n, output_edge_order=o)


# --------------------------------------------------------- Fourier transform


def case_fft(ctx):
  fft = load("fft.fft")
  be = ctx.choice(["numpy", "numpy", "numpy", "tensorflow", "jax"])
  n = ctx.integers(1, 7) if be == "numpy" else ctx.integers(1, 4)
  batch = [ctx.integers(1, 3) for _ in range(ctx.choice([0, 0, 1, 2]))]
  con = contractor(ctx, small=n <= 2)
  product = n >= 2 and ctx.flip(0.3)
  ctx.note("fft", be, n, batch, product)
  ctx.sig("fft", be, n, tuple(batch), product)
  with tn.DefaultBackend(be):
    if product:
      k = ctx.integers(1, n - 1)
      a = ctx.array((2,) * k, np.complex128)
      b = ctx.array((2,) * (n - k), np.complex128)
      nodes = [tn.Node(a), tn.Node(b)]
      state = np.multiply.outer(a, b)
      inputs = nodes[0].edges[:] + nodes[1].edges[:]
      order = ctx.perm(n)
      inputs = [inputs[i] for i in order]
      state = np.transpose(state, order)
      extra, batch = [], []
    else:
      # the transformed axes sit anywhere among the others
      r = n + len(batch)
      where = ctx.perm(r)
      state = ctx.array((2,) * n + tuple(batch), np.complex128)
      node = tn.Node(np.transpose(state, np.argsort(where)))
      nodes = [node]
      inputs = [node[where[i]] for i in range(n)]
      extra = [node[where[n + i]] for i in range(len(batch))]
    times = ctx.choice([1, 1, 1, 2, 4]) if n <= 4 else 1
    out = list(inputs)
    for _ in range(times):
      given = list(out)
      out = fft.add_fft(given)
      ctx.check(len(out) == n and all(e.is_dangling() for e in out),
                "add_fft returned %s", out)
    everything = tn.reachable(set(nodes))
    res = con(everything, list(out) + extra)
    got = to_np(res.tensor)
  flat = state.reshape((2**n,) + tuple(batch))
  want = flat
  for _ in range(times):
    want = np.fft.fft(want, axis=0, norm="ortho")
  ctx.close(got, want.reshape((2,) * n + tuple(batch)), "Fourier transform "
            "of %d bits, %d times" % (n, times), tol=1e-9)
  ctx.obs("fft")
  if times == 1 and ctx.flip(0.3):
    with tn.DefaultBackend("numpy"):
      x, y = tn.Node(np.ones((2, 2))), tn.Node(np.ones(2))
      x[0] ^ y[0]
      before = nets.fingerprint([x, y])
      ctx.rejects(lambda: fft.add_fft([x[1], x[0]]), "connected inputs",
                  (ValueError,))
      ctx.check(nets.fingerprint([x, y]) == before,
                "a rejected add_fft changed the network")
    ctx.obs("rejected")


# ------------------------------------------------------------------------ SAT


def formula(ctx):
  nv = ctx.choice([1, 2, 3, 3, 4, 5, 6])
  m = ctx.integers(1, 6 if nv > 2 else 4)
  style = ctx.choice(["random", "random", "blocks", "gaps", "repeats"])
  var = list(range(1, nv + 1))
  if style == "gaps":
    var = ctx.subset(var, ctx.integers(1, nv))
  out = []
  for _ in range(m):
    pool = var
    if style == "blocks" and nv >= 2:
      cut = nv // 2
      pool = ctx.choice([var[:cut], var[cut:]])
    c = [ctx.choice(pool) for _ in range(3)]
    if style == "repeats" and ctx.flip():
      c[1] = c[0]
    out.append(tuple(x if ctx.flip() else -x for x in c))
  return out, max(abs(x) for c in out for x in c)


def table(clauses, nv):
  t = np.zeros((2,) * nv, dtype=np.int64)
  for a in itertools.product((0, 1), repeat=nv):
    t[a] = all(any((a[abs(x) - 1] == 1) == (x > 0) for x in c)
               for c in clauses)
  return t


def components(clauses, nv):
  rep = list(range(nv + 1))

  def find(x):
    while rep[x] != x:
      x = rep[x]
    return x

  for c in clauses:
    for x in c[1:]:
      rep[find(abs(x))] = find(abs(c[0]))
  return len({find(v) for v in range(1, nv + 1)})


def first_component(clauses):
  """What the known finding counts instead: the part of the formula that
  shares variables, directly or indirectly, with variable 1."""
  vs = {1}
  while True:
    more = vs | {abs(x) for c in clauses if any(abs(y) in vs for y in c)
                 for x in c}
    if more == vs:
      break
    vs = more
  num = {v: i + 1 for i, v in enumerate(sorted(vs))}
  part = [tuple(num[abs(x)] * (1 if x > 0 else -1) for x in c)
          for c in clauses if abs(c[0]) in vs]
  return int(table(part, len(vs)).sum())


KNOWN = {}


def known(name, fn):
  """Whether the recorded defect is there, in its recorded form."""
  if name not in KNOWN:
    KNOWN[name] = bool(fn())
  return KNOWN[name]


def sat_disconnected():
  sat = load("sat.sat_tensornetwork")
  nodes = sat.sat_count_tn([(1, 2, 2), (3, 4, -5)])
  return float(to_np(tn.contractors.auto(nodes).tensor)) == 3.0


def trotter_backward():
  import tensorflow as tf
  wf = load("wavefunctions.wavefunctions")
  h = np.diag([1.0, 2.0, 3.0, 4.0]).astype(np.complex128)
  psi = np.ones((2, 2), np.complex128)
  got, _ = wf.evolve_trotter(tf.constant(psi), [tf.constant(
      h.reshape((2,) * 4))], 0.25, 1, euclidean=False)
  want = np.exp(0.25j * np.diag(h)).reshape(2, 2)
  return np.allclose(to_np(got), want, atol=1e-9)


def script_conj():
  try:
    script()
  except AttributeError as e:
    return str(e) == "'Node' object has no attribute 'conj'"
  return False


def case_sat(ctx):
  sat = load("sat.sat_tensornetwork")
  clauses, nv = formula(ctx)
  ctx.note("clauses", clauses)
  ctx.sig("sat", tuple(clauses))
  t = table(clauses, nv)
  given = ctx.choice([list, tuple])(clauses)
  kind = ctx.choice(["count", "count", "table"])
  con = contractor(ctx, small=False)
  if kind == "count":
    nodes = sat.sat_count_tn(given)
    got = to_np(con(nodes).tensor)
    ctx.eq(got.shape, (), "shape of a count")
    want = float(t.sum())
    if components(clauses, nv) > 1 and known("sat_disconnected",
                                             sat_disconnected):
      want = float(first_component(clauses))
      ctx.obs("known_disconnected")
    ctx.eq(float(got), want, "number of satisfying assignments")
    ctx.obs("counts")
    if components(clauses, nv) > 1:
      ctx.obs("disconnected_formulas")
  else:
    edges = sat.sat_tn(given)
    ctx.eq(len(edges), nv, "variable edges")
    got = to_np(con(tn.reachable(set(edges)), edges).tensor)
    ctx.eq(got.shape, t.shape, "shape of the table")
    ctx.check(np.array_equal(np.asarray(got, dtype=np.float64), t),
              "truth table differs from the formula")
    ctx.obs("tables")
  if ctx.flip(0.1):
    bad = list(clauses) + [tuple(ctx.shuffled([0, 1, 2]))]
    ctx.rejects(lambda: sat.sat_tn(bad), "a clause with 0", (ValueError,))
    ctx.rejects(lambda: sat.sat_count_tn(bad), "a clause with 0",
                (ValueError,))
    ctx.obs("rejected")


# ----------------------------------------------------------------------- MERA


def layer(iso, dis):
  """Map from the three top sites to the six bottom sites, as a matrix."""
  d0, d1, chi = iso.shape
  v = np.einsum("abx,cdy,efz->abcdefxyz", iso, iso, iso)
  v = np.einsum("pqbc,abcdefxyz->apqdefxyz", dis, v)
  return np.einsum("rsde,apqdefxyz->apqrsfxyz", dis, v)


def mera_energy(h, rho, iso, dis):
  v = layer(iso, dis)
  left = np.einsum("apqrsfxyz,PQRpqr,aPQRsfXYZ,xyzXYZ->", v, h, v.conj(), rho,
                   optimize=True)
  right = np.einsum("apqrsfxyz,QRSqrs,apQRSfXYZ,xyzXYZ->", v, h, v.conj(), rho,
                    optimize=True)
  return 0.5 * (left + right)


def mera_input(ctx, dtype, chi=2):
  h = ctx.array((chi,) * 6, dtype)
  rho = ctx.array((chi,) * 6, dtype)
  iso = ctx.array((chi,) * 3, dtype)
  dis = ctx.array((chi,) * 4, dtype)
  if ctx.flip(0.5):
    m = h.reshape(chi**3, -1)
    h = (m + m.conj().T).reshape(h.shape)
    m = rho.reshape(chi**3, -1)
    m = m @ m.conj().T
    rho = (m / np.trace(m)).reshape(h.shape)
    iso = np.linalg.qr(iso.reshape(chi**2, chi))[0].reshape(iso.shape)
    dis = np.linalg.qr(dis.reshape(chi**2, chi**2))[0].reshape(dis.shape)
  return h, rho, iso, dis


def case_mera(ctx):
  mera = load("simple_mera.simple_mera")
  kind = ctx.choice(["energy", "energy", "descend", "ascend", "real_env",
                     "update", "shift"])
  dtype = np.complex128
  if kind == "energy" and ctx.flip():
    dtype = np.float64
  # three-dimensional sites cost another compilation: energies only
  chi = ctx.choice([2, 2, 2, 3]) if kind == "energy" else 2
  h, rho, iso, dis = x = mera_input(ctx, dtype, chi)
  ctx.note("mera", kind, chi, np.dtype(dtype).name)
  ctx.sig("mera", kind, chi, np.dtype(dtype).name, float(abs(h.flat[0])))
  scale = max(1.0, abs(mera_energy(*x)))
  if kind == "energy":
    ctx.close(to_np(mera.binary_mera_energy(*x)), mera_energy(*x) / 1,
              "MERA energy", tol=1e-9 * scale)
  elif kind == "descend":
    got = to_np(mera.descend(*x))
    h2 = ctx.array(h.shape, dtype)
    for k in (h, h2):
      ctx.close(np.sum(got * k) / scale, mera_energy(k, rho, iso, dis) / scale,
                "the descended state gives another energy", tol=1e-8)
  elif kind == "ascend":
    got = to_np(mera.ascend(*x))
    r2 = ctx.array(h.shape, dtype)
    for k in (rho, r2):
      ctx.close(np.sum(got * k) / scale, mera_energy(h, k, iso, dis) / scale,
                "the ascended operator gives another energy", tol=1e-8)
  elif kind == "real_env":
    y = [a.real.copy() for a in x]
    which = ctx.choice([2, 3])
    f = mera.env_iso if which == 2 else mera.env_dis
    got = to_np(f(*[a.astype(np.complex128) for a in y]))
    d = ctx.array(y[which].shape, np.float64)
    # the energy is a polynomial of degree 12 or 4 in the tensor: its
    # derivative along d from exact interpolation
    deg = 6 if which == 2 else 4
    pts = np.linspace(-0.5, 0.5, 13)

    def at(t):
      z = list(y)
      z[which] = y[which] + t * d
      return mera_energy(*z)

    p = np.polynomial.polynomial.Polynomial.fit(pts, [at(t) for t in pts],
                                                12 if which == 2 else deg)
    want = p.deriv()(0.0)
    s = max(1.0, abs(want), float(np.abs(got).max()))
    ctx.close(np.sum(got.real * d) / s, want / s, "environment of %s" % (
        "the isometry" if which == 2 else "the disentangler"), tol=1e-6)
    ctx.close(got.imag / s, np.zeros(got.shape), "imaginary part of a real "
              "environment", tol=1e-9)
    ctx.obs("environments")
  elif kind == "update":
    iso_case = ctx.flip()
    f, e = ((mera.update_iso, mera.env_iso) if iso_case else
            (mera.update_dis, mera.env_dis))
    got, env = to_np(f(*x)), to_np(e(*x))
    k = 4
    m = got.reshape(k, -1)
    ctx.close(m.conj().T @ m, np.eye(m.shape[1]), "an updated tensor is not "
              "isometric", tol=1e-9)
    sv = np.linalg.svd(env.reshape(k, -1), compute_uv=False)
    ctx.close(np.sum(env * got) / sv.sum(), 1.0 + 0j, "an updated tensor is "
              "not the optimum of its linearised energy", tol=1e-8)
    ctx.obs("updates")
  else:
    m = h.reshape(8, 8)
    m = m + m.conj().T
    sh = ctx.choice([None, 0.5, -2.0])
    got = to_np(mera.shift_ham(m.reshape((2,) * 6), sh) if sh is not None or
                ctx.flip() else mera.shift_ham(m.reshape((2,) * 6)))
    want = m - (np.linalg.eigvalsh(m)[-1] if sh is None else sh) * np.eye(8)
    ctx.close(got, want.reshape((2,) * 6), "shifted Hamiltonian", tol=1e-9)
    X, Z, E = np.array([[0, 1], [1, 0]]), np.diag([1, -1]), np.eye(2)
    k3 = lambda a, b, c: np.kron(a, np.kron(b, c))
    ctx.close(to_np(mera.ham_ising()), (k3(X, Z, X) - 0.5 * (
        k3(X, X, E) + k3(E, X, X))).reshape((2,) * 6), "Ising Hamiltonian",
              tol=1e-12)
  ctx.obs("mera_" + kind)


def case_mera_run(ctx):
  """A few optimisation steps from a valid MERA."""
  mera = load("simple_mera.simple_mera")
  n = ctx.integers(1, 3)
  h = np.asarray(mera.ham_ising()).astype(np.complex128)
  _, rho, iso, dis = mera_input(ctx, np.complex128)
  iso = np.linalg.qr(iso.reshape(4, 2))[0].reshape(2, 2, 2)
  dis = np.linalg.qr(dis.reshape(4, 4))[0].reshape(2, 2, 2, 2)
  m = rho.reshape(8, 8)
  m = m @ m.conj().T
  rho = (m / np.trace(m)).reshape((2,) * 6)
  ctx.sig("run", n, float(abs(rho.flat[0])))
  buf = io.StringIO()
  with contextlib.redirect_stdout(buf):
    s, w, u = [to_np(t) for t in mera.optimize_linear(h, rho, iso, dis, n)]
  w, u = w.reshape(4, 2), u.reshape(4, 4)
  ctx.close(w.conj().T @ w, np.eye(2), "final isometry", tol=1e-9)
  ctx.close(u.conj().T @ u, np.eye(4), "final disentangler", tol=1e-9)
  ms = s.reshape(8, 8)
  ctx.close(np.trace(ms), 1.0 + 0j, "trace of the final state", tol=1e-8)
  ctx.close(ms, ms.conj().T, "the final state is not Hermitian", tol=1e-8)
  ctx.check(np.linalg.eigvalsh(ms)[0] > -1e-9, "the final state is negative")
  lines = buf.getvalue().strip().split("\n")
  ctx.eq(len(lines), n, "printed energies")
  e = complex(lines[-1].split("\t")[1])
  ctx.close(e, mera_energy(h, s, w.reshape(2, 2, 2), u.reshape((2,) * 4)),
            "last energy", tol=1e-8)
  ctx.obs("mera_runs")


# -------------------------------------------------------------- wavefunctions


def embed(op, n1, dims, pbc):
  """Dense matrix of a k-site operator acting from site n1."""
  k = op.ndim // 2
  n = len(dims)
  sites = [(n1 + m) % n if pbc else n1 + m for m in range(k)]
  rest = [i for i in range(n) if i not in sites]
  d = int(np.prod([dims[i] for i in rest], dtype=int))
  m = np.multiply.outer(op.reshape(op.shape), np.eye(d).reshape(
      [dims[i] for i in rest] * 2))
  # axes: out(sites), in(sites), out(rest), in(rest)
  axes_out = {s: j for j, s in enumerate(sites)}
  axes_in = {s: k + j for j, s in enumerate(sites)}
  for j, s in enumerate(rest):
    axes_out[s] = 2 * k + j
    axes_in[s] = 2 * k + len(rest) + j
  D = int(np.prod(dims, dtype=int))
  return np.transpose(m, [axes_out[i] for i in range(n)] +
                      [axes_in[i] for i in range(n)]).reshape(D, D)


def case_wave(ctx):
  import tensorflow as tf
  wf = load("wavefunctions.wavefunctions")
  n = ctx.integers(1, 5)
  dims = [ctx.choice([1, 2, 2, 3])] * n if ctx.flip() else [
      ctx.choice([1, 2, 2, 3]) for _ in range(n)]
  dtype = ctx.choice([np.float64, np.complex128])
  psi = ctx.array(dims, dtype)
  kind = ctx.choice(["apply", "expval", "inner", "circuit", "circuit"])
  ctx.note("wave", kind, dims, np.dtype(dtype).name)
  v = psi.reshape(-1)
  T = tf.constant
  if kind == "inner":
    phi = ctx.array(dims, dtype)
    ctx.close(to_np(wf.inner(T(psi), T(phi))), np.vdot(psi, phi), "inner",
              tol=1e-9)
    ctx.sig("inner", tuple(dims))
  elif kind in ("apply", "expval"):
    pbc = ctx.flip()
    k = ctx.integers(1, n)
    n1 = ctx.integers(0, n - 1 if pbc else n - k)
    at = [(n1 + m) % n for m in range(k)]
    ds = [dims[i] for i in at]
    op = ctx.array(ds + ds, dtype)
    m = embed(op, n1, dims, pbc)
    kw = {"pbc": True} if pbc else {}
    if kind == "apply":
      got = wf.apply_op(T(psi), T(op), n1, **kw)
      ctx.close(to_np(got), (m @ v).reshape(dims), "apply_op", tol=1e-9)
    else:
      got = wf.expval(T(psi), T(op), n1, **kw)
      ctx.close(to_np(got), np.vdot(v, m @ v), "expval", tol=1e-8)
    ctx.sig(kind, tuple(dims), n1, k, pbc)
    if pbc and n1 + k > n:
      ctx.obs("wrapped_operators")
  else:
    layers, want, overlap, names = [], v, False, []
    for _ in range(ctx.integers(0, 4)):
      gates = [None] * ctx.integers(0, n)
      i = 0
      while i < len(gates):
        if ctx.flip(0.6):
          k = ctx.integers(1, min(3, n - i))
          ds = dims[i:i + k]
          g = ctx.array(ds + ds, dtype)
          gates[i] = T(g)
          want = embed(g, i, dims, False) @ want
          names.append((len(layers), i, k))
          i += k
        else:
          i += 1
      layers.append(gates)
    ctx.sig(kind, tuple(dims), tuple(names))
    got = wf.apply_circuit(T(psi), layers)
    s = max(1.0, float(np.abs(want).max()))
    ctx.close(to_np(got) / s, want.reshape(dims) / s, "apply_circuit",
              tol=1e-9)
    if n >= 2:
      two = ctx.array(dims[:2] * 2, dtype)
      one = ctx.array([dims[1]] * 2, dtype)
      ctx.rejects(lambda: wf.apply_circuit(T(psi), [[T(two), T(one)]]),
                  "overlapping gates", (ValueError,))
  ctx.obs("wave_" + kind)


def case_evolve(ctx):
  import tensorflow as tf
  wf = load("wavefunctions.wavefunctions")
  n = ctx.integers(2, 5)
  dims = [ctx.choice([2, 2, 3])] * n if ctx.flip() else [
      ctx.choice([1, 2, 3]) for _ in range(n)]
  eu = ctx.flip()
  dtype = np.complex128 if not eu or ctx.flip() else np.float64
  H = []
  commuting = ctx.flip(0.3)
  for i in range(n - 1):
    d = dims[i] * dims[i + 1]
    h = ctx.array((d, d), dtype)
    if ctx.flip(0.9):
      h = (h + h.conj().T) / 2
    h = h / max(1.0, np.abs(h).max())
    if commuting and i % 2:
      h = 0 * h
    H.append(h.reshape([dims[i], dims[i + 1]] * 2))
  psi = ctx.array(dims, dtype)
  # python floats pass through single precision in TensorFlow's cast
  step = ctx.choice([2.0**-7, 0.125, 0.25, 1.0])
  steps = ctx.choice([0, 1, 1, 2, 3, 4, 5])
  defun = ctx.flip(0.35)
  batch = ctx.choice([1, 2, 3])
  ctx.note("evolve", dims, "euclidean", eu, np.dtype(dtype).name, step, steps,
           "defun", defun, batch)
  ctx.sig("evolve", tuple(dims), eu, step, steps, defun, batch, commuting)
  # the oracle: one matrix exponential per bond, even bonds first
  c = -step if eu else -1j * step
  if not eu and known("trotter_backward", trotter_backward):
    c = 1j * step
  U = np.eye(int(np.prod(dims)), dtype=dtype)
  for par in (0, 1):
    for i in range(par, n - 1, 2):
      m = embed(H[i], i, dims, False)
      U = scipy.linalg.expm(c * m) @ U
  full = sum(embed(h, i, dims, False) for i, h in enumerate(H))
  if commuting:
    ctx.close(U, scipy.linalg.expm(c * full), "oracle of commuting terms",
              tol=1e-9)
  log = []
  cb = (lambda p, t, i: log.append((to_np(p).copy(), complex(t), int(i)))
        ) if ctx.flip() else None
  T = tf.constant
  kw = dict(euclidean=eu) if eu or ctx.flip() else {}
  if cb:
    kw["callback"] = cb
  if defun:
    if batch > 1:
      kw["batch_size"] = batch
    got, t = wf.evolve_trotter_defun(T(psi), [T(h) for h in H], step, steps,
                                     **kw)
  else:
    got, t = wf.evolve_trotter(T(psi), [T(h) for h in H], step, steps, **kw)
  v, seq = psi.reshape(-1), []
  for _ in range(steps):
    v = U @ v
    if eu:
      v = v / np.linalg.norm(v)
    seq.append(v)
  s = max(1.0, float(np.abs(v).max()))
  ctx.close(to_np(got) / s, v.reshape(dims) / s, "evolved state%s" % (
      " (exact exponential)" if commuting else ""), tol=1e-8)
  ctx.close(complex(to_np(t)), complex(step * steps), "final time", tol=1e-9)
  if cb:
    b = batch if defun else 1
    want = list(range(b - 1, steps - steps % b, b)) if defun else list(
        range(steps))
    ctx.eq([i for _, _, i in log], want, "steps given to the callback")
    for p, tt, i in log:
      z = max(1.0, float(np.abs(seq[i]).max()))
      ctx.close(p / z, seq[i].reshape(dims) / z, "state given to the callback",
                tol=1e-8)
      ctx.close(tt, complex(step * (i + 1)), "time given to the callback",
                tol=1e-9)
    ctx.obs("callbacks")
  ctx.obs("evolved_euclidean" if eu else "evolved_real")
  if commuting:
    ctx.obs("exact_evolution")
  if defun:
    ctx.obs("evolved_in_graph")
  if not commuting and not eu and steps == 1 and n == 2:
    ctx.close(to_np(got) / s, (scipy.linalg.expm(c * full) @ psi.reshape(
        -1)).reshape(dims) / s, "two-site evolution", tol=1e-8)
  if ctx.flip(0.1):
    ctx.rejects(lambda: wf.evolve_trotter(T(psi), [T(h) for h in H[:-1]],
                                          step, 1),
                "a missing Hamiltonian term", (ValueError,))


# ------------------------------------------------------------- symmetric DMRG


def case_dmrg(ctx):
  """The block-sparse ingredients of the DMRG example."""
  ex = load("dmrg.symmetric_dmrg")
  n = ctx.integers(2, 6)
  jz, jxy = ctx.array((n - 1,), np.float64), ctx.array((n - 1,), np.float64)
  bz = ctx.array((n,), np.float64)
  dtype = ctx.choice([np.float64, np.complex128])
  route = ctx.flip()
  mpo = (ex.initialize_XXZ_mpo(jz, jxy, bz, dtype, "symmetric") if route else
         ex.blocksparse_XXZ_mpo(jz, jxy, bz, dtype))
  ctx.note("dmrg", n, np.dtype(dtype).name)
  ctx.sig("dmrg", n, float(jz[0]))

  class Plain:
    tensors = [np.asarray(t.todense()) for t in mpo.tensors]

  ctx.close(c18.dense(Plain)[0, 0], c18.xxz(jz, jxy, bz),
            "XXZ Hamiltonian of the example", tol=1e-9)
  ctx.obs("symmetric_mpos")


def script():
  root = os.path.dirname(os.path.dirname(os.path.abspath(tn.__file__)))
  buf = io.StringIO()
  with contextlib.redirect_stdout(buf):
    return runpy.run_path(os.path.join(root, "examples", "custom_path_solvers",
                                       "example.py"), run_name="__main__")


def case_scripts(ctx):
  """The path solver example: three routes to one tensor."""
  if known("script_conj", script_conj):
    raise core.Inconclusive("stops with the known finding")
  g = script()
  ctx.check(g["is_optimal"], "an unrestricted search is not optimal")
  T0, T1, T2 = to_np(g["T0"]), np.asarray(g["T1"]), to_np(g["T2"])
  # the order of the output legs is that of the labels
  s = np.abs(T0).max()
  ctx.close(T1 / s, T0 / s, "opt_einsum route", tol=1e-9)
  ctx.close(T2 / s, T0 / s, "node route", tol=1e-9)
  ctx.sig(float(T0.flat[0]))
  ctx.obs("scripts")


def setup():
  nets.setup_jax()
  # jax.config was a module when the example was written
  import jax
  sys.modules.setdefault("jax.config", jax.config)
  warnings.simplefilter("ignore")
  import tensorflow as tf
  tf.get_logger().setLevel("ERROR")


CHECK = core.Check(
    "C30",
    [
        core.Group("fft", case_fft, 300, 5000),
        core.Group("sat", case_sat, 300, 5000),
        core.Group("mera", case_mera, 160, 3000),
        core.Group("mera_run", case_mera_run, 8, 60),
        core.Group("wave", case_wave, 500, 10000),
        core.Group("evolve", case_evolve, 200, 3000),
        core.Group("dmrg", case_dmrg, 60, 1000),
        core.Group("scripts", case_scripts, 0, 4),
    ],
    rule="the example programs on random sizes and inputs against dense "
         "numpy definitions; distinct by sizes, options and formulas",
    required=("fft", "counts", "tables", "disconnected_formulas", "rejected",
              "mera_energy", "mera_descend", "mera_ascend", "mera_update",
              "mera_shift", "environments", "mera_runs", "wave_apply",
              "wave_expval", "wave_inner", "wave_circuit",
              "wrapped_operators", "evolved_real", "evolved_euclidean",
              "exact_evolution", "evolved_in_graph", "callbacks",
              "symmetric_mpos"),
    setup=setup,
    probes={
        "sat_disconnected": sat_disconnected,
        "trotter_backward": trotter_backward,
        "script_conj": script_conj,
    },
)
