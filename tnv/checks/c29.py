"""C29: a drawn network is isomorphic to the network.

The DOT text of the drawing is read back with an independent parser, labels
are rendered as graphviz renders them, and the labelled multigraph is compared
with the one read off the network's edges, up to isomorphism.
"""
import itertools
import re

import graphviz
import numpy as np
import tensornetwork as tn
from tensornetwork.visualization.graphviz import to_graphviz

from tnv import core, nets

# ------------------------------------------------------------------ DOT reader

TOKEN = re.compile(
    r'\s+|//[^\n]*|/\*.*?\*/|(?P<q>"(?:[^"\\]|\\.)*")|(?P<edge>--|->)|'
    r'(?P<p>[\[\]{}=;,:])|(?P<id>-?[A-Za-z0-9_.\x80-\uffff]+)', re.S)


def tokens(src):
  out, i = [], 0
  while i < len(src):
    if src[i] == "<":
      depth, j = 0, i
      while True:
        depth += {"<": 1, ">": -1}.get(src[j], 0)
        j += 1
        if depth == 0:
          break
      out.append(("html", src[i:j]))
      i = j
      continue
    m = TOKEN.match(src, i)
    if not m:
      raise core.Violation("unreadable DOT at %r" % src[i:i + 40])
    i = m.end()
    if m.group("q") is not None:
      s = m.group("q")[1:-1]
      s = s.replace("\\\n", "")
      # the only escape of DOT strings themselves
      out.append(("s", re.sub(r'\\(.)', lambda k: '"' if k.group(1) == '"'
                              else k.group(0), s, flags=re.S)))
    elif m.group("edge"):
      out.append(("e", m.group()))
    elif m.group("p"):
      out.append(("p", m.group()))
    elif m.group("id"):
      out.append(("s", m.group()))
  return out


class Drawing:
  """Vertices and lines of an undirected graph, defaults applied."""

  def __init__(self, src):
    self.toks = tokens(src)
    self.i = 0
    self.vertices, self.lines = {}, []
    self.defaults = {"node": {}, "edge": {}, "graph": {}}
    if self.peek() == ("s", "strict"):
      self.next()
    kind = self.next()
    self.kind = kind[1]
    if self.peek() != ("p", "{"):
      self.name = self.next()[1]
    self.expect("{")
    self.body()

  def peek(self):
    return self.toks[self.i] if self.i < len(self.toks) else (None, None)

  def next(self):
    t = self.peek()
    self.i += 1
    return t

  def expect(self, p):
    t = self.next()
    if t != ("p", p):
      raise core.Violation("unreadable DOT: %r instead of %r" % (t, p))

  def attrs(self):
    out = {}
    while self.peek() == ("p", "["):
      self.next()
      while self.peek() != ("p", "]"):
        k = self.next()[1]
        self.expect("=")
        t = self.next()
        out[k] = t
        if self.peek() in (("p", ","), ("p", ";")):
          self.next()
      self.next()
    return out

  def vertex(self, name, attrs=None):
    v = self.vertices.setdefault(name, dict(self.defaults["node"]))
    v.update(attrs or {})

  def body(self):
    while self.peek() != ("p", "}"):
      t = self.next()
      if t == ("p", ";"):
        continue
      if t[0] not in ("s", "html"):
        raise core.Violation("unreadable DOT statement at %r" % (t,))
      if t[1] in self.defaults and self.peek() == ("p", "["):
        self.defaults[t[1]].update(self.attrs())
        continue
      if self.peek() == ("p", "="):
        self.next()
        self.defaults["graph"][t[1]] = self.next()
        continue
      chain = [self.port(t)]
      while self.peek()[0] == "e":
        self.next()
        chain.append(self.port(self.next()))
      a = self.attrs()
      if len(chain) == 1:
        self.vertex(chain[0], a)
      else:
        for x, y in zip(chain, chain[1:]):
          self.vertex(x)
          self.vertex(y)
          self.lines.append((x, y, dict(self.defaults["edge"], **a)))
    self.next()

  def port(self, t):
    while self.peek() == ("p", ":"):
      self.next()
      self.next()
    return t[1]


def rendered(attr, own=""):
  """The text graphviz shows for a label attribute."""
  if attr is None:
    return own
  kind, s = attr
  if kind == "html":
    return ("html", s)
  out, i = [], 0
  while i < len(s):
    c = s[i]
    if c == "\\" and i + 1 < len(s):
      n = s[i + 1]
      i += 2
      if n in "nlr":
        out.append("\n")
      elif n in "NGETHL":
        out.append("<%s>" % n)
      else:
        out.append(n)
      continue
    out.append(c)
    i += 1
  return "".join(out)


# ---------------------------------------------------------------------- oracle


def shown(name, everything):
  return name if everything or not name.startswith("__") else ""


def expected(nodes, everything):
  """labels, inner multigraph and dangling ends of the network."""
  at = {id(n): k for k, n in enumerate(nodes)}
  labels = [shown(n.name, everything) for n in nodes]
  inner, open_, seen = {}, {}, set()
  for n in nodes:
    for e in n.edges:
      if id(e) in seen:
        continue
      seen.add(id(e))
      l = shown(e.name, everything)
      if e.is_dangling():
        open_.setdefault(at[id(n)], []).append(l)
      else:
        k = tuple(sorted((at[id(e.node1)], at[id(e.node2)])))
        inner.setdefault(k, []).append(l)
  return labels, inner, open_


def find_isomorphism(n, wl, wi, wo, gl, gi, go):
  """A bijection of vertices carrying one labelled multigraph to the other."""
  wi = {k: sorted(v) for k, v in wi.items()}
  gi = {k: sorted(v) for k, v in gi.items()}

  def sig(v, l, i, o):
    return (l[v], sorted(o.get(v, [])), sorted(
        (sorted(x), len(set(k)) == 1) for k, x in i.items() if v in k))

  ws = [sig(v, wl, wi, wo) for v in range(n)]
  gs = [sig(v, gl, gi, go) for v in range(n)]
  to = [None] * n

  def place(v):
    if v == n:
      return True
    for u in range(n):
      if u in to or ws[v] != gs[u]:
        continue
      to[v] = u
      ok = all(wi.get((min(v, x), max(v, x)), []) == gi.get(
          (min(u, to[x]), max(u, to[x])), []) for x in range(v + 1))
      if ok and place(v + 1):
        return True
      to[v] = None
    return False

  return place(0)


def check_drawing(ctx, g, nodes, everything, extra=0):
  """extra: vertices the user had already put into the graph."""
  d = Drawing(g.source)
  ctx.eq(d.kind, "graph", "kind of graph")
  wl, wi, wo = expected(nodes, everything)
  hidden = {v for v, a in d.vertices.items()
            if "invis" in a.get("style", ("s", ""))[1].split(",")}
  visible = [v for v in d.vertices if v not in hidden and not v.startswith(
      "user vertex")]
  ctx.eq(len(visible), len(nodes), "visible vertices")
  ctx.eq(len(hidden), sum(map(len, wo.values())), "invisible endpoints")
  lines = [l for l in d.lines if not l[0].startswith("user vertex")]
  ctx.eq(len(lines), sum(map(len, wi.values())) + len(hidden), "lines")
  at = {v: k for k, v in enumerate(visible)}
  gl = [rendered(d.vertices[v].get("label"), own=v) for v in visible]
  ctx.check(sorted(map(str, gl)) == sorted(wl), "vertex labels %s, expected %s",
            gl, wl)
  gi, go, ends = {}, {}, {}
  for x, y, a in lines:
    l = rendered(a.get("label"))
    ctx.check("invis" not in a.get("style", ("s", ""))[1], "an invisible line")
    h = [v for v in (x, y) if v in hidden]
    if h:
      ctx.eq(len(h), 1, "a line between two invisible endpoints")
      ends[h[0]] = ends.get(h[0], 0) + 1
      v = y if h[0] == x else x
      go.setdefault(at[v], []).append(l)
    else:
      k = tuple(sorted((at[x], at[y])))
      gi.setdefault(k, []).append(l)
  ctx.check(all(ends.get(h) == 1 for h in hidden),
            "lines per invisible endpoint: %s", sorted(ends.values()))
  for h in hidden:
    ctx.eq(rendered(d.vertices[h].get("label"), own=h), "",
           "label of an invisible endpoint")
  ctx.check(all(isinstance(x, str) for x in itertools.chain(
      gl, *gi.values(), *go.values())), "a label is read as markup")
  ctx.check(find_isomorphism(len(nodes), wl, wi, wo, gl, gi, go),
            "the drawing is not isomorphic to the network: vertices %s lines "
            "%s dangling %s, expected %s %s %s", gl, gi, go, wl, wi, wo)
  ctx.stats.obs("lines", len(lines))
  ctx.stats.obs("vertices", len(visible))
  if any(len(v) > 1 for v in wi.values()):
    ctx.obs("parallel_edges")
  if any(a == b for a, b in wi):
    ctx.obs("loops")
  if hidden:
    ctx.obs("dangling")


# ----------------------------------------------------------------------- cases

NAMES = ["a", "A", "B", "left leg", "x-1", "n0", "7", "-3.5", "node", "edge",
         "graph", "strict", "a:b", "p:n", "é", "日本", "a;b", "{", "}", "[x]",
         "a--b", "=", "a,b", "_x", "_", "x__", "q'", "#", "//c", "", "a b  c"]
HARD = ['say "hi"', "a\\b", "\\", "\\n", "two\nlines", "<b>", "<x", "a<b>c",
        "<>", "\\N", "&amp;", "x\\\\y", 'end\\"', '"', "<a", "tab\t"]


def rename(ctx, nodes):
  pool = NAMES + (HARD if ctx.flip(0.5) else [])
  hard = False
  for n in nodes:
    r = ctx.integers(0, 5)
    if r <= 2:
      n.set_name(ctx.choice(pool))
    elif r == 3:
      n.set_name(ctx.choice(["__x", "__unnamed_node__", "__"]))
    hard |= n.name in HARD
    for e in n.edges:
      r = ctx.integers(0, 5)
      if r <= 1:
        e.set_name(ctx.choice(pool))
      elif r == 2:
        e.set_name(ctx.choice(["__y", "__unnamed_edge__"]))
      hard |= e.name in HARD
  if hard:
    ctx.obs("hard_names")


def draw(ctx, nodes, what):
  everything = ctx.flip()
  given = ctx.choice([list, tuple, set, "generator", "shuffled", "dict"])
  if given == "generator":
    arg = (n for n in nodes)
  elif given == "shuffled":
    arg = ctx.shuffled(nodes)
  elif given == "dict":
    arg = {n: 1 for n in nodes}.keys()
  else:
    arg = given(nodes)
  before = nets.fingerprint(nodes)
  kw = {}
  if everything or ctx.flip():
    kw["include_all_names"] = everything
  style = ctx.choice(["default", "default", "engine", "graph", "used"])
  mine = None
  if style == "engine":
    kw["engine"] = ctx.choice(["dot", "circo", "neato", "fdp"])
  elif style in ("graph", "used"):
    mine = graphviz.Graph("mine", engine="dot", node_attr=ctx.choice(
        [{}, {"shape": "box"}]), edge_attr={"color": "red"})
    if style == "used":
      mine.node("user vertex 1", label="u")
      mine.node("user vertex 2")
      mine.edge("user vertex 1", "user vertex 2", label="mine")
    kw["graph"] = mine
  ctx.sig(str(given), everything, style)
  g = to_graphviz(arg, **kw)
  if mine is not None:
    ctx.check(g is mine, "a given graph is not the one returned")
    ctx.obs("given_graphs")
  else:
    ctx.check(isinstance(g, graphviz.Graph), "a %s is returned", type(g))
    ctx.eq(g.engine, kw.get("engine", "neato"), "engine")
  ctx.check(nets.fingerprint(nodes) == before, "drawing changed the network")
  check_drawing(ctx, g, nodes, everything)
  if style == "used":
    d = Drawing(g.source)
    ctx.check({"user vertex 1", "user vertex 2"} <= set(d.vertices) and
              sum(x.startswith("user") for x, _, _ in d.lines) == 1,
              "what the graph contained before is gone")
  g2 = to_graphviz(list(nodes), include_all_names=everything)
  check_drawing(ctx, g2, nodes, everything)
  ctx.obs("drawings")
  if everything:
    ctx.obs("all_names")


def case_built(ctx):
  be = nets.pick_backend(ctx)
  n = ctx.integers(1, 7)
  if ctx.flip(0.08):
    nodes = nets.gen_network(ctx, "numpy", **nets.large(ctx))
    ctx.obs("large")
  else:
    nodes = nets.gen_network(ctx, be, n=n, maxrank=5, dims=ctx.choice(
        [(1, 2, 3), (2,)]), p_trace=ctx.choice([0.15, 0.6]), maxopen=9)
  if ctx.flip(0.8):
    rename(ctx, nodes)
  ctx.note(nets.describe(nodes))
  ctx.sig(nets.topo_sig(nodes))
  draw(ctx, nodes, "built")


def case_edited(ctx):
  """Networks in the states that contraction and splitting leave behind."""
  nodes = nets.gen_network(ctx, "numpy", n=ctx.integers(2, 5), maxopen=6)
  m = nets.Machine(ctx, nodes)
  for _ in range(ctx.integers(1, 6)):
    m.step()
  nodes = list(m.nodes)
  if not nodes:
    raise core.Inconclusive("nothing left")
  live = set()
  for n in nodes:
    live |= tn.reachable(n)
  nodes = sorted(live, key=lambda n: [id(x) for x in nodes].index(id(n))
                 if any(x is n for x in nodes) else 99)
  if len(nodes) > 8 or any(n.is_disabled for n in nodes):
    raise core.Inconclusive("not drawable")
  if ctx.flip(0.5):
    rename(ctx, nodes)
  ctx.note(nets.describe(nodes))
  ctx.sig("edited", nets.topo_sig(nodes))
  draw(ctx, nodes, "edited")
  ctx.obs("edited")


def case_reached(ctx):
  """Drawing what the library hands out: reachable sets, copies, splits."""
  nodes = nets.gen_network(ctx, "numpy", n=ctx.integers(1, 5), p_connect=0.9)
  kind = ctx.choice(["reachable", "copy", "split", "quantum"])
  if kind == "reachable":
    nodes = list(tn.reachable(nodes[0]))
  elif kind == "copy":
    nmap, _ = tn.copy(nodes)
    nodes = list(nmap.values())
  elif kind == "split":
    c = [n for n in nodes if n.get_rank() >= 2 and not isinstance(
        n, tn.CopyNode) and not n.get_all_nondangling() & set() and not any(
            e.is_trace() for e in n.edges)]
    if c:
      n = ctx.choice(c)
      cut = ctx.integers(1, n.get_rank() - 1)
      es = list(n.edges)
      l, r, _ = tn.split_node(n, es[:cut], es[cut:], left_name="L",
                              right_name="R", edge_name=ctx.choice(
                                  [None, "bond"]))
      nodes = [x for x in nodes if x is not n] + [l, r]
  else:
    from tensornetwork.quantum import quantum
    k = ctx.integers(1, 3)
    x = ctx.array((2,) * (2 * k), np.float64)
    op = quantum.QuOperator.from_tensor(x, list(range(k)),
                                        list(range(k, 2 * k)))
    op = op @ op if ctx.flip() else op.tensor_product(op)
    nodes = list(op.nodes)
  if ctx.flip(0.3):
    rename(ctx, nodes)
  ctx.note(kind, nets.describe(nodes))
  ctx.sig(kind, nets.topo_sig(nodes))
  draw(ctx, nodes, kind)
  ctx.obs("drawn_" + kind)


CHECK = core.Check(
    "C29",
    [
        core.Group("built", case_built, 1500, 40000),
        core.Group("edited", case_edited, 500, 10000),
        core.Group("reached", case_reached, 500, 10000),
    ],
    rule="DOT text read back and compared up to labelled multigraph "
         "isomorphism; distinct by network, argument type and options",
    required=("drawings", "lines", "vertices", "parallel_edges", "loops",
              "dangling", "given_graphs", "all_names", "hard_names", "edited",
              "drawn_reachable", "drawn_copy", "drawn_split",
              "drawn_quantum"),
    setup=nets.setup_jax,
)
