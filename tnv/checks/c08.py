"""C08: saving and loading reproduces the network exactly."""
import io
import json
import os
import shutil
import tempfile

import numpy as np
import tensornetwork as tn

from tnv import core, nets
from tnv.dense import to_np
from tnv.nets import check_structure, fingerprint

NAMES = ["A", "node1", "node0", "edge0", "", " ", "ü-λ", "日本", "a/b", "..",
         "__unnamed_node__", "__unnamed_edge__", "x" * 200, "\\n\n\t", "'\"{}",
         "None", "123456789", "nodes", "edge_names"]
DTYPES = [np.float64, np.float32, np.complex128, np.complex64, np.float16,
          np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.bool_]


def _np_tensor(ctx, shape, dtype):
  a = ctx.array(shape, dtype)
  if a.dtype.kind in "fc" and a.size and ctx.flip(0.3):
    a = a.copy()
    flat = a.reshape(-1)
    vals = [np.inf, -np.inf, np.nan, -0.0, np.finfo(a.dtype).tiny,
            np.finfo(a.dtype).max]
    for i in ctx.subset(range(flat.size), min(flat.size, 2)):
      flat[i] = ctx.choice(vals)
  r = ctx.rng.random()
  if a.ndim >= 2 and r < 0.2:
    a = np.asfortranarray(a)
  elif a.ndim >= 1 and r < 0.3:
    b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
    v = b[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    a = v
  elif a.ndim >= 1 and r < 0.4:
    a = a.copy()
    a.setflags(write=False)
  return a


def _network(ctx, backend, copy_nodes, n=None):
  """A random network with hostile names, dtypes and connectivity."""
  n = n or ctx.choice([1, 1, 2, 3, 3, 4, 5, 6, 12, 15])
  nodes = []
  dims = (1, 2, 2, 3) if not ctx.flip(0.1) else (0, 1, 2)
  base = ctx.choice(DTYPES if backend == "numpy" else
                    [np.float64, np.float32, np.complex128, np.int32])
  for i in range(n):
    dt = ctx.choice(DTYPES) if backend == "numpy" and ctx.flip(0.3) else base
    rank = ctx.integers(0, 4)
    name = ctx.choice(NAMES) if ctx.flip(0.6) else None
    axn = None
    if ctx.flip(0.6):
      axn = ctx.subset(NAMES + ["0", "1", "2"], rank)
    if copy_nodes and ctx.flip(0.25):
      cdt = np.dtype(dt)
      node = tn.CopyNode(rank, ctx.integers(1, 3), name=name, axis_names=axn,
                         backend=backend,
                         dtype=cdt.type if ctx.flip() else cdt)
      if ctx.flip():
        _ = node.tensor
    else:
      a = _np_tensor(ctx, [ctx.choice(dims) for _ in range(rank)], dt)
      node = tn.Node(a, name=name, axis_names=axn, backend=backend)
    nodes.append(node)
  free = ctx.shuffled([(x, k) for x in nodes for k in range(len(x.shape))])
  p = ctx.choice([0.3, 0.7, 1.0])
  while free:
    x, k = free.pop()
    cand = [j for j, (y, l) in enumerate(free) if y.shape[l] == x.shape[k]]
    if cand and ctx.flip(p):
      y, l = free.pop(ctx.choice(cand))
      if ctx.flip():
        tn.connect(x[k], y[l], name=ctx.choice(NAMES))
      else:
        x[k] ^ y[l]
    elif ctx.flip(0.3):
      x[k].set_name(ctx.choice(NAMES))
  if ctx.flip(0.25):  # a history before saving
    for x in nodes:
      if x.get_rank() >= 2 and isinstance(x, tn.Node) and ctx.flip(0.4):
        x.reorder_axes(ctx.perm(x.get_rank()))
  elif ctx.flip(0.3):
    if any(d[1] == "CopyNode" and d[0] in ("flatten", "split", "slice")
           for d in nets.shake(ctx, nodes)):
      ctx.obs("reshaped_copy_nodes")
  return nodes


def _snap(nodes):
  """Everything a load has to reproduce, without object identities."""
  num = {id(x): i for i, x in enumerate(nodes)}
  out = []
  for x in nodes:
    t = to_np(x.tensor)
    es = []
    for e in x.edges:
      ends = [(num.get(id(e.node1)), e.axis1)]
      if not e.is_dangling():
        ends.append((num.get(id(e.node2)), e.axis2))
      ends = sorted(en for en in ends if en[0] is not None)
      es.append((e.name, tuple(ends)))
    kind = type(x).__name__
    if isinstance(x, tn.CopyNode):
      kind += " %d %d" % (x.rank, x.dimension)
    out.append((kind, x.name, tuple(x.axis_names), t.shape,
                str(t.dtype), t.tobytes(), x.backend.name, tuple(es)))
  return out


_FIELDS = ["type", "name", "axis names", "shape", "dtype", "tensor bits",
           "backend", "edges (name, endpoints)"]


def _compare(ctx, want, loaded, what):
  ctx.eq(len(loaded), len(want), what + ": number of nodes")
  check_structure(ctx, loaded)
  got = _snap(loaded)
  for i, (g, w) in enumerate(zip(got, want)):
    for f, a, b in zip(_FIELDS, g, w):
      ctx.check(a == b, "%s: node %d: %s is %s, saved was %s", what, i, f,
                core._short(a), core._short(b))
  # shared edge objects are shared again: number of distinct edges
  ctx.obs("networks_reloaded")
  ctx.stats.obs("nodes_reloaded", len(want))
  ctx.stats.obs("edges_reloaded", sum(len(w[7]) for w in want))


def case_hdf5(ctx, backend="numpy"):
  nodes = _network(ctx, backend, True)
  nodes = ctx.shuffled(nodes)
  want = _snap(nodes)
  fp = fingerprint(nodes)
  ctx.note(backend, nets.describe(nodes))
  ctx.sig(backend, nets.topo_sig(nodes), [w[4] for w in want])
  # the networks' CopyNode values as such are covered by their tensors
  arg = tuple(nodes) if ctx.flip(0.2) else list(nodes)
  d = tempfile.mkdtemp(prefix="tnv08_")
  try:
    if ctx.flip(0.3):
      target = io.BytesIO()
    else:
      target = os.path.join(d, "net.h5")
      if ctx.flip(0.2):  # overwriting an older file
        tn.save_nodes([tn.Node(np.ones(3), name="old")], target)
    tn.save_nodes(arg, target)
    ctx.check(fingerprint(nodes) == fp, "save_nodes changed the network")
    loaded = tn.load_nodes(target)
    _compare(ctx, want, loaded, "load_nodes")
    ctx.check(not ({id(x) for x in loaded} & {id(x) for x in nodes}),
              "load_nodes returned a saved node object")
    # a second generation and independence of two loads
    again = tn.load_nodes(target)
    for x in loaded:
      x.set_name("changed")
      for e in x.edges:
        e.set_name("changed")
      if isinstance(x, tn.Node):
        x.tensor = x.tensor * 0 if to_np(x.tensor).dtype != bool else x.tensor
    _compare(ctx, want, again, "second load_nodes")
    t2 = os.path.join(d, "second.h5")
    tn.save_nodes(again, t2)
    _compare(ctx, want, tn.load_nodes(t2), "re-saved network")
    ctx.check(fingerprint(nodes) == fp, "load_nodes changed the network")
  finally:
    shutil.rmtree(d, ignore_errors=True)


def case_hdf5_failure(ctx):
  """Saving that fails leaves the network, including its names, unchanged."""
  nodes = _network(ctx, "numpy", True)
  d = tempfile.mkdtemp(prefix="tnv08_")
  kind = ctx.choice(["dir", "object", "open", "twice", "load", "backend"])
  ctx.note(kind, nets.describe(nodes))
  ctx.sig(kind, nets.topo_sig(nodes))
  path = os.path.join(d, "x.h5")
  try:
    if kind == "object":
      bad = tn.Node(np.array([{}, None], dtype=object), name="bad")
      nodes.insert(ctx.integers(0, len(nodes)), bad)
    names = lambda: [(x.name, tuple(x.axis_names),
                      tuple((id(e), e.name, e.axis1, e.axis2)
                            for e in x.edges)) for x in nodes]
    before = names()
    if kind == "dir":
      ctx.rejects(lambda: tn.save_nodes(nodes, os.path.join(d, "no", "x")),
                  "saving into a missing directory")
    elif kind == "object":
      ctx.rejects(lambda: tn.save_nodes(nodes, path),
                  "saving an unsupported tensor")
    elif kind == "twice":
      x = ctx.choice(nodes)
      arg = nodes + [x]
      ctx.rejects(lambda: tn.save_nodes(arg, path), "a node listed twice")
    elif kind == "open":
      part = ctx.subset(nodes)
      outside = [x for x in nodes if x not in part]
      crossing = any(e.node2 is not None and (e.node1 in outside or
                                              e.node2 in outside)
                     for x in part for e in x.edges)
      if not part:
        pass
      elif crossing:
        ctx.rejects(lambda: tn.save_nodes(part, path),
                    "saving nodes connected to nodes that are not saved")
        ctx.stats.obs("crossing_rejected")
      else:
        want = _snap(part)
        tn.save_nodes(part, path)
        _compare(ctx, want, tn.load_nodes(path), "load_nodes of a component")
    elif kind == "load":
      ctx.rejects(lambda: tn.load_nodes(os.path.join(d, "nofile.h5")),
                  "loading a missing file")
      with open(path, "wb") as f:
        f.write(b"not an hdf5 file" * 10)
      ctx.rejects(lambda: tn.load_nodes(path), "loading garbage")
    else:
      import h5py
      tn.save_nodes(nodes, path)
      with h5py.File(path, "r+") as f:
        g = f["nodes/node%d" % ctx.integers(0, len(nodes) - 1)]
        field = ctx.choice(["backend", "type"])
        del g[field]
        g.create_dataset(field, data="nosuch",
                         dtype=h5py.special_dtype(vlen=str))
      ctx.rejects(lambda: tn.load_nodes(path), "unknown %s in file" % field)
    ctx.check(names() == before, "a failed or partial %s changed names or "
              "edges of the network", kind)
    ctx.obs("failure_injections")
  finally:
    shutil.rmtree(d, ignore_errors=True)


def _bindings(ctx, all_edges, snap_edges):
  """Random bindings and what has to come back."""
  binding, want = {}, {}
  for i in range(ctx.integers(0, 4)):
    key = ctx.choice(["in", "out", "ü", "", "k%d" % i])
    if ctx.flip(0.4) and all_edges:
      e = ctx.choice(all_edges)
      binding[key] = e
      es = [e]
    else:
      es = [ctx.choice(all_edges) for _ in range(ctx.integers(0, 4))
            ] if all_edges else []
      binding[key] = ctx.choice([list, tuple])(es)
    w = tuple(snap_edges[id(e)] for e in es if id(e) in snap_edges)
    want.pop(key, None)
    if w:
      want[key] = w
  return binding, want


def _where(nodes):
  """edge id -> one (node number, axis) place that identifies the edge."""
  res = {}
  for i, x in enumerate(nodes):
    for k, e in enumerate(x.edges):
      res.setdefault(id(e), (i, k))
  return res


def case_json(ctx, backend="numpy"):
  nodes = _network(ctx, backend, False)
  part = ctx.shuffled(nodes) if ctx.flip(0.4) else ctx.subset(
      nodes, ctx.integers(1, len(nodes)))
  want = _snap(part)
  fp = fingerprint(nodes)
  ctx.note(backend, nets.describe(nodes), "part", len(part))
  ctx.sig(backend, nets.topo_sig(part), len(nodes) - len(part),
          [w[4] for w in want])
  all_edges = list(dict.fromkeys(e for x in nodes for e in x.edges))
  binding, bwant = _bindings(ctx, all_edges, _where(part))
  bfp = {k: (v if isinstance(v, tn.Edge) else list(v))
         for k, v in binding.items()}
  text = (tn.nodes_to_json(part, edge_binding=binding) if binding else
          tn.nodes_to_json(part))
  ctx.check(isinstance(text, str), "nodes_to_json did not return a string")
  json.loads(text)
  ctx.check(fingerprint(nodes) == fp, "nodes_to_json changed the network")
  ctx.check({k: (v if isinstance(v, tn.Edge) else list(v))
             for k, v in binding.items()} == bfp,
            "nodes_to_json changed the binding")
  loaded, bgot = tn.nodes_from_json(text)
  _compare(ctx, want, loaded, "nodes_from_json")
  ctx.eq(sorted(bgot), sorted(bwant), "binding keys")
  for k, places in bwant.items():
    ctx.check(isinstance(bgot[k], tuple) and len(bgot[k]) == len(places),
              "binding %r has %s edges, expected %d", k, len(bgot[k]),
              len(places))
    for e, (i, a) in zip(bgot[k], places):
      ctx.check(e is loaded[i].edges[a], "binding %r points to the wrong edge",
                k)
      ctx.stats.obs("bindings_checked")
  # the reloaded network is a network: boundary edges can be used again
  d = [e for x in loaded for e in x.edges if e.is_dangling()]
  pairs = [(a, b) for a in d for b in d if a is not b and
           a.dimension == b.dimension]
  if pairs:
    a, b = ctx.choice(pairs)
    e = a ^ b
    check_structure(ctx, loaded)
    tn.disconnect(e)
  text2 = tn.nodes_to_json(loaded)
  again, _ = tn.nodes_from_json(text2)
  names = [tuple(e.name for e in x.edges) for x in loaded]
  ctx.eq([tuple(e.name for e in x.edges) for x in again], names,
         "edge names after the second round trip")
  ctx.check(fingerprint(nodes) == fp, "nodes_from_json changed the network")


def case_json_reject(ctx):
  nodes = _network(ctx, "numpy", False)
  fp = fingerprint(nodes)
  edges = [e for x in nodes for e in x.edges]
  kind = ctx.choice(["key", "value", "item", "backend", "text"])
  ctx.note(kind)
  ctx.sig(kind, nets.topo_sig(nodes))
  if kind in ("key", "value", "item"):
    if not edges:
      return
    e = ctx.choice(edges)
    bad = {"key": {ctx.choice([1, None, ("a",)]): e},
           "value": {"a": ctx.choice([3, None, nodes[0].tensor.dtype])},
           "item": {"a": [e, ctx.choice([1, None, "x"])]}}[kind]
    if ctx.flip():
      bad = {**{"good": e}, **bad}
    ctx.rejects(lambda: tn.nodes_to_json(nodes, edge_binding=bad),
                "edge_binding with a bad " + kind, (TypeError,))
  elif kind == "backend":
    text = json.loads(tn.nodes_to_json(nodes))
    text["nodes"][ctx.integers(0, len(nodes) - 1)]["attributes"][
        "backend"] = ctx.choice(["nosuch", "", "Numpy"])
    ctx.rejects(lambda: tn.nodes_from_json(json.dumps(text)),
                "unknown backend in JSON", (ValueError,))
  else:
    ctx.rejects(lambda: tn.nodes_from_json(ctx.choice(["", "{", "[]"])),
                "malformed JSON")
  ctx.check(fingerprint(nodes) == fp, "a rejected call changed the network")


CHECK = core.Check(
    "C08",
    [
        core.Group("hdf5", case_hdf5, 700, 9000),
        core.Group("hdf5_tf", lambda c: case_hdf5(c, "tensorflow"), 80, 900),
        core.Group("hdf5_jax", lambda c: case_hdf5(c, "jax"), 80, 900),
        core.Group("hdf5_failure", case_hdf5_failure, 300, 4000),
        core.Group("json", case_json, 1200, 16000),
        core.Group("json_reject", case_json_reject, 300, 3000),
    ],
    rule="cases that saved and reloaded (or were refused) a network; distinct "
         "by backend, topology and dtypes",
    required=("networks_reloaded", "bindings_checked", "failure_injections",
              "rejections", "crossing_rejected", "reshaped_copy_nodes"),
    setup=nets.setup_jax,
)
