"""C23: ambient settings are scoped and restored, also after failures."""
import contextlib

import numpy as np
import tensornetwork as tn
from tensornetwork import backend_contextmanager as bcm
from tensornetwork import ops
from tensornetwork.backends import abstract_backend, backend_factory
from tensornetwork.quantum import quantum as Q

from tnv import core, nets

USABLE = ("numpy", "tensorflow", "jax")
LOG = []          # nodes in the order in which their construction completed


def setup():
  nets.setup_jax()
  for cls in (tn.Node, tn.CopyNode):
    init = cls.__init__

    def wrapped(self, *args, __init=init, **kw):
      __init(self, *args, **kw)
      LOG.append(self)

    cls.__init__ = wrapped


class Boom(Exception):
  pass


def native(ctx, backend, tensor, what):
  import jax
  import tensorflow as tf
  types = {"numpy": np.ndarray, "tensorflow": tf.Tensor, "jax": jax.Array}
  ctx.check(isinstance(tensor, (types[backend], np.generic)
                       if backend == "numpy" else types[backend]),
            "%s: expected a %s tensor, got a %s", what, backend,
            type(tensor).__name__)


class World:
  """The reference model: a base setting and a stack of contexts."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.base = "numpy"
    self.backs = []
    self.colls = []              # ids into self.boxes
    self.boxes = []              # (container, expected list)
    self.managers = []           # (manager, stack, item)
    self.seen = len(LOG)

  def current(self):
    return self.backs[-1] if self.backs else self.base

  def sync(self):
    """Assigns the nodes created since the last call to the innermost box."""
    new = LOG[self.seen:]
    self.seen = len(LOG)
    if self.colls:
      self.boxes[self.colls[-1]][1].extend(new)
      if new:
        self.ctx.obs("collected_nodes")
    return new

  def verify(self, what):
    self.sync()
    ctx = self.ctx
    got, want = bcm.get_default_backend(), self.current()
    ctx.check(got is want or (isinstance(got, str) and got == want),
              "%s: the default backend is %r, expected %r", what, got, want)
    for i, (box, want) in enumerate(self.boxes):
      if isinstance(box, set):
        ctx.check(box == set(want), "%s: container %d has %d nodes, expected "
                  "%d", what, i, len(box), len(want))
      else:
        ctx.check(len(box) == len(want) and all(
            a is b for a, b in zip(box, want)),
                  "%s: list %d has %d nodes, expected %d in order of creation",
                  what, i, len(box), len(want))
    ctx.obs("states_verified")


def name_of(b):
  return b if isinstance(b, str) else b.name


def creators():
  a = lambda: np.arange(4.0).reshape(2, 2)
  return {
      "Node": lambda **k: tn.Node(a(), **k),
      "CopyNode": lambda **k: tn.CopyNode(3, 2, **k),
      "Tensor": lambda **k: tn.Tensor(a(), **k),
      "ones": lambda **k: tn.ones((2, 3), **k),
      "zeros": lambda **k: tn.zeros((2,), **k),
      "eye": lambda **k: tn.eye(2, **k),
      "randn": lambda **k: tn.randn((2, 2), **k),
      "random_uniform": lambda **k: tn.random_uniform((3,), **k),
      "ncon": lambda **k: tn.ncon([a(), a()], [(-1, 1), (1, -2)], **k),
      "FiniteMPS": lambda **k: tn.FiniteMPS(
          [np.ones((1, 2, 2)), np.ones((2, 2, 1))], **k),
      "FiniteMPS_random": lambda **k: tn.FiniteMPS.random(
          [2, 2], [2], np.float64, **k),
      "InfiniteMPS": lambda **k: tn.InfiniteMPS([np.ones((2, 2, 2))],
                                                **k),
      "FiniteMPO": lambda **k: tn.FiniteMPO(
          [np.ones((1, 1, 2, 2)), np.ones((1, 1, 2, 2))], **k),
      "FiniteXXZ": lambda **k: tn.FiniteXXZ(np.ones(2), np.ones(2), np.ones(3),
                                            np.float64, **k),
      "FiniteTFI": lambda **k: tn.FiniteTFI(np.ones(2), np.ones(3), np.float64,
                                            **k),
      "identity": lambda **k: Q.identity([2, 3], **k),
      "QuOperator": lambda **k: Q.QuOperator.from_tensor(a(), [0], [1], **k),
      "QuVector": lambda **k: Q.QuVector.from_tensor(a(), **k),
      "QuScalar": lambda **k: Q.QuScalar.from_tensor(np.array(2.0), **k),
      "from_topology": lambda **k: tn.from_topology("ab,bc", [a(), a()], **k),
      "jit": lambda **k: tn.jit(lambda x, y: x @ y, **k),
  }


def backend_of(ctx, kind, obj, name, what):
  """Checks that the object belongs to the backend of that name."""
  be = backend_factory.get_backend(name)
  if kind in ("Node", "CopyNode", "Tensor", "ones", "zeros", "eye", "randn",
              "random_uniform", "FiniteMPS", "FiniteMPS_random", "InfiniteMPS",
              "FiniteMPO", "FiniteXXZ", "FiniteTFI"):
    ctx.check(obj.backend is be, "%s of %s: backend is %s, expected %s", kind,
              what, obj.backend.name, name)
  if kind in ("Node", "CopyNode"):
    native(ctx, name, obj.tensor, kind + " " + what)
  elif kind in ("Tensor", "ones", "zeros", "eye", "randn", "random_uniform"):
    native(ctx, name, obj.array, kind + " " + what)
  elif kind == "ncon":
    native(ctx, name, obj, kind + " " + what)
  elif kind in ("FiniteMPS", "FiniteMPS_random", "InfiniteMPS", "FiniteMPO",
                "FiniteXXZ", "FiniteTFI"):
    for t in obj.tensors:
      native(ctx, name, t, kind + " " + what)
  elif kind in ("identity", "QuOperator", "QuVector", "QuScalar"):
    for n in obj.nodes:
      ctx.check(n.backend is be, "%s of %s: a node of %s", kind, what,
                n.backend.name)
  elif kind == "from_topology":
    for n in obj:
      ctx.check(n.backend is be, "from_topology %s: a node of %s", what,
                n.backend.name)
  elif kind == "jit":
    seen = []

    def probe(x):
      seen.append(type(x).__module__)
      return x + x

    obj(np.eye(2), np.eye(2))
    del probe


def jit_follows(ctx, w, **k):
  """The decorated function is compiled exactly on the jax backend."""
  import jax
  seen = []

  def f(x):
    seen.append(isinstance(x, jax.core.Tracer))
    return x + x

  want = name_of(k.get("backend", w.current()))
  g = tn.jit(f, **k)
  return g, seen, want == "jax"


def failing(ctx):
  """An operation that fails while constructing nodes."""
  a = np.ones((2, 2))
  return ctx.choice([
      lambda: tn.Node(a, axis_names=["x"]),
      lambda: tn.Node(a, axis_names=["x", "x"]),
      lambda: tn.Node(a, axis_names=["x", 3]),
      lambda: tn.Node(a, name=7),
      lambda: tn.Node(a, backend="nonesuch"),
      lambda: tn.CopyNode(2, 2, backend="nonesuch"),
      lambda: tn.CopyNode(2, 2, axis_names=["p"]),
      lambda: tn.Tensor(a, backend="nonesuch"),
      lambda: tn.ncon([a, np.ones((3, 2))], [(-1, 1), (1, -2)]),
      lambda: tn.connect(tn.Node(a)[0], tn.Node(np.ones(3))[0]),
      lambda: tn.contract_between(tn.Node(a), tn.Node(a)),
      lambda: tn.FiniteMPS([np.ones((1, 2, 2))], backend="nonesuch"),
  ])


def act(ctx, w, depth, jits):
  kind = ctx.choice(["create", "create", "create", "explicit", "operate",
                     "fail", "set", "setbad", "enter", "enter", "enter", "raise",
                     "jit", "call", "getbackend", "badctx"])
  if kind == "create":
    name = ctx.choice(sorted(creators()))
    cur = w.current()
    if name_of(cur) not in USABLE:
      return
    obj = creators()[name]()
    ctx.note("create", name, "under", name_of(cur))
    ctx.sig("c" + name + name_of(cur)[0])
    backend_of(ctx, name, obj, name_of(cur), "under default")
    ctx.obs("created_by_default")
  elif kind == "explicit":
    name = ctx.choice(sorted(creators()))
    b = ctx.choice(USABLE)
    if name == "FiniteMPO" or ctx.flip() or name in ("identity",):
      arg = b
    else:
      arg = backend_factory.get_backend(b)
    ctx.note("explicit", name, b)
    ctx.sig("x" + name + b[0])
    obj = creators()[name](backend=arg)
    backend_of(ctx, name, obj, b, "with an explicit backend")
    ctx.obs("created_explicitly")
  elif kind == "operate":
    # results stay with their operands whatever the ambient backend is
    b = ctx.choice(USABLE)
    x, y = tn.Node(np.eye(2), backend=b), tn.Node(np.ones((2, 2)), backend=b)
    how = ctx.integers(0, 8)
    ctx.note("operate", how, b)
    ctx.sig("o%d" % how + b[0])
    be = backend_factory.get_backend(b)
    if how == 0:
      x[1] ^ y[0]
      r = [x @ y]
    elif how == 1:
      r = [x + y, x * y, x / 2.0, x - y]
    elif how == 2:
      x[0] ^ x[1]
      r = [tn.contract_trace_edges(x)]
    elif how == 3:
      u, v, _ = tn.split_node(x, [x[0]], [x[1]])
      r = [u, v]
    elif how == 4:
      x[1] ^ y[0]
      r = [tn.contractors.auto([x, y], [x[0], y[1]])]
    elif how == 5:
      c, _ = tn.copy([x, y])
      r = list(c.values())
    elif how == 6:
      x[1] ^ y[0]
      e = x[0]
      r = [tn.contractors.greedy([x, y], [e, y[1]])]
    elif how == 7:
      t = tn.ones((2, 2), backend=b)
      ctx.check(tn.tensordot(t, t, 1).backend is be and tn.ones_like(
          t).backend is be if hasattr(tn, "ones_like") else True,
                "tensordot leaves the backend of its operands")
      t2 = tn.ncon([t, t], [(-1, 1), (1, -2)], backend=b)
      ctx.check(t2.backend is be, "ncon of Tensors leaves their backend")
      r = []
    else:
      x[1] ^ y[0]
      q, rr = tn.split_node_qr(x, [x[0]], [x[1]])
      r = [q, rr, tn.contract_between(rr, y)]
    for n in r:
      ctx.check(n.backend is be, "an operation on %s nodes gives a %s node", b,
                n.backend.name)
      native(ctx, b, n.tensor, "operation %d" % how)
    ctx.obs("operated")
  elif kind == "fail":
    f = failing(ctx)
    ctx.sig("f")
    try:
      f()
    except Exception as e:
      ctx.note("failed", type(e).__name__)
      ctx.obs("failed_creations")
    else:
      ctx.fail("an invalid construction was accepted")
  elif kind == "set":
    b = ctx.choice(["jax", "numpy", "pytorch", "symmetric", "tensorflow"])
    arg = b
    if b in USABLE and ctx.flip():
      arg = backend_factory.get_backend(b)
    ctx.note("set_default_backend", b)
    ctx.sig("s" + b[0])
    if w.backs:
      ctx.rejects(lambda: tn.set_default_backend(arg),
                  "set_default_backend inside a context", AssertionError)
    else:
      tn.set_default_backend(arg)
      w.base = arg
      ctx.obs("base_changes")
  elif kind == "setbad":
    bad = ctx.choice(["nonesuch", "", "Numpy", 3, None, np.float64,
                      ["numpy"], tn.Node])
    ctx.note("set bad", str(bad))
    ctx.sig("S")
    ctx.rejects(lambda: tn.set_default_backend(bad), "set_default_backend(%r)" %
                (bad,), (ValueError, AssertionError) if w.backs else ValueError)
  elif kind == "badctx":
    ctx.sig("B")
    if ctx.flip():
      ctx.rejects(lambda: tn.DefaultBackend(ctx.choice([3, None, ["numpy"]])),
                  "DefaultBackend of no backend", ValueError)
    else:
      ctx.rejects(lambda: tn.NodeCollection(ctx.choice([(), {}, None, "x"])),
                  "NodeCollection of no list or set", ValueError)
  elif kind == "enter":
    if depth < 5:
      enter(ctx, w, depth, jits)
  elif kind == "raise":
    ctx.note("raise")
    ctx.sig("!")
    if depth:
      w.sync()
      ctx.obs("raised")
      raise Boom(depth)
  elif kind == "jit":
    if name_of(w.current()) in USABLE and ctx.flip():
      jits.append(jit_follows(ctx, w))
    else:
      b = ctx.choice(USABLE)
      jits.append(jit_follows(ctx, w, backend=ctx.choice(
          [b, backend_factory.get_backend(b)])))
    ctx.sig("j")
  elif kind == "call":
    if jits:
      g, seen, traced = ctx.choice(jits)
      del seen[:]
      # a new shape forces a new trace
      x = np.ones(ctx.integers(1, 10**6) % 997 + 1)
      y = np.asarray(g(x))
      ctx.check(y.shape == x.shape and (y == 2).all(), "jit changed the value")
      if not traced or seen:
        ctx.check(seen == [traced], "a jitted function ran %s on the wrong "
                  "backend", "traced" if not traced else "eagerly")
        ctx.obs("jit_calls")
      ctx.sig("J")
  else:
    b = ctx.choice(USABLE + ("symmetric",))
    o = backend_factory.get_backend(b)
    ctx.check(o is backend_factory.get_backend(b), "get_backend(%r) gave two "
              "objects", b)
    ctx.check(backend_factory.get_backend(o) is o, "get_backend of an object")
    ctx.eq(o.name, b, "backend name")
    ctx.check(isinstance(o, abstract_backend.AbstractBackend), "type")
    ctx.rejects(lambda: backend_factory.get_backend(ctx.choice(
        ["nonesuch", "NUMPY", ""])), "unknown backend", ValueError)
    ctx.obs("singletons")


def enter(ctx, w, depth, jits):
  how = ctx.choice(["backend", "backend", "collection", "collection", "reuse",
                    "again", "again", "manager", "manager"])
  caught = ctx.flip(0.5)
  if how == "manager" and w.managers:
    # a manager object used before, perhaps active further out
    cm, stack, item = ctx.choice(w.managers)
    ctx.note("  " * depth + "with an earlier manager", type(cm).__name__,
             item if stack is w.colls else name_of(item))
    ctx.sig("<m", type(cm).__name__)
    ctx.obs("managers_reused")
  elif (how == "backend" or (how == "reuse" and not w.boxes) or
        how in ("again", "manager") and ctx.flip()):
    b = ctx.choice(["numpy", "tensorflow", "jax", "symmetric", "pytorch",
                    "nonesuch"] + list(USABLE) * 2)
    arg = b
    if b in USABLE and ctx.flip():
      arg = backend_factory.get_backend(b)
    cm = tn.DefaultBackend(arg)
    stack, item = w.backs, arg
    ctx.note("  " * depth + "with DefaultBackend", b)
    ctx.sig("<b" + b[0])
  else:
    if how == "reuse" and w.boxes:
      i = ctx.integers(0, len(w.boxes) - 1)
      ctx.obs("containers_reused")
    else:
      box = [] if ctx.flip(0.6) else set()
      pre = []
      if ctx.flip(0.3):
        n = tn.Node(np.ones(2), backend="numpy")
        w.sync()
        pre = [n]
        (box.append if isinstance(box, list) else box.add)(n)
      w.boxes.append((box, pre))
      i = len(w.boxes) - 1
    cm = tn.NodeCollection(w.boxes[i][0])
    stack, item = w.colls, i
    ctx.note("  " * depth + "with NodeCollection", i,
             type(w.boxes[i][0]).__name__)
    ctx.sig("<n")
  if (cm, stack, item) not in w.managers:
    w.managers.append((cm, stack, item))
  times = 2 if how == "again" else 1     # the same manager entered twice
  try:
    with contextlib.ExitStack() as st:
      w.sync()
      for _ in range(times):
        st.enter_context(cm)
        stack.append(item)
      st.callback(w.sync)      # runs before the contexts are left
      w.verify("after entering")
      for _ in range(ctx.integers(0, 4)):
        act(ctx, w, depth + 1, jits)
        w.verify("inside")
      if times == 2:
        ctx.obs("reentered")
  except Boom:
    for _ in range(times):
      stack.pop()
    w.verify("after leaving by an exception")
    ctx.obs("left_by_exception")
    ctx.sig(">!")
    if not caught:
      raise
  else:
    for _ in range(times):
      stack.pop()
    w.verify("after leaving")
    ctx.obs("left_normally")
    ctx.sig(">")


def case_history(ctx):
  ctx.check(bcm.get_default_backend() == "numpy", "the default backend is %r at "
            "the start", bcm.get_default_backend())
  ctx.check(ops.get_current_collection() is None, "a collection is active at "
            "the start")
  del LOG[:]
  w = World(ctx)
  jits = []
  try:
    for _ in range(ctx.integers(2, 8)):
      try:
        act(ctx, w, 0, jits)
      except Boom:
        ctx.obs("reached_top")
      w.verify("at top level")
    ctx.check(ops.get_current_collection() is None, "a collection is still "
              "active")
  finally:
    # after a violation: best effort to give the next case a clean start
    for holder in (getattr(bcm, "_default_backend_stack", None),
                   getattr(ops, "_default_collection_stack", None)):
      if isinstance(getattr(holder, "stack", None), list):
        holder.stack[:] = []
    tn.set_default_backend("numpy")
    del LOG[:]


def case_jit(ctx):
  """jit with backend_argnum and static arguments."""
  import jax
  b = ctx.choice(USABLE)
  arg = ctx.choice([b, backend_factory.get_backend(b)])
  pos = ctx.integers(0, 2)
  static = ctx.choice([(), "int", "tuple", "list"])
  n = ctx.integers(1, 4)
  seen = []

  def f(*args):
    rest = [x for i, x in enumerate(args) if i != pos]
    seen.append([isinstance(x, jax.core.Tracer) for x in rest])
    x, k = rest
    if static:
      ctx.check(isinstance(k, int), "a static argument was traced: %s %s %s", [type(z) for z in args], pos, sa)
    return x * k

  f.__doc__ = "some text"
  spos = [i for i in range(3) if i != pos][1]
  sa = {"int": spos, "tuple": (spos,), "list": [spos]}.get(static, ())
  ambient = ctx.choice(USABLE)
  with tn.DefaultBackend(ambient):
    g = tn.jit(f, backend_argnum=pos, static_argnums=sa)
  ctx.eq((g.__name__, g.__doc__), ("f", "some text"), "name of the function")
  x = ctx.array((ctx.integers(1, 30),))
  args = [x, n]
  args.insert(pos, arg)
  y = np.asarray(g(*args))
  ctx.sig(b, pos, static, x.shape, n, ambient)
  ctx.close(y, x * n, "jitted function", tol=1e-12)
  ctx.eq(seen[-1][0], b == "jax", "traced under the backend passed")
  bad = list(args)
  bad[pos] = ctx.choice(["nonesuch", "x"])
  ctx.rejects(lambda: g(*bad), "jit called with an unknown backend", ValueError)
  ctx.rejects(lambda: tn.jit(f, backend="numpy", backend_argnum=1),
              "jit with both backend and backend_argnum", ValueError)
  # another backend through the same function
  c = ctx.choice(USABLE)
  args[pos] = c
  x2 = ctx.array((ctx.integers(31, 60),))
  args[[i for i in range(3) if i != pos][0]] = x2
  ctx.close(np.asarray(g(*args)), x2 * n, "jitted function", tol=1e-12)
  ctx.eq(seen[-1][0], c == "jax", "traced under the second backend passed")
  ctx.obs("backend_argnum_calls")
  # static arguments without backend_argnum
  h = tn.jit(lambda x, k: x[:k], backend=b, static_argnums=ctx.choice(
      [1, (1,), [1]]) if b != "jax" or ctx.flip() else (1,))
  k = ctx.integers(0, x.size)
  z = x if b != "tensorflow" else backend_factory.get_backend(
      b).convert_to_tensor(x)
  ctx.close(np.asarray(h(z, k)), x[:k], "static argument", tol=0)


CHECK = core.Check(
    "C23",
    [
        core.Group("history", case_history, 6000, 120000),
        core.Group("jit", case_jit, 300, 3000),
    ],
    rule="random histories of context entry, exit, failure and creation "
         "against a stack model; distinct by sequence of actions",
    required=("created_by_default", "created_explicitly", "operated",
              "failed_creations", "base_changes", "raised", "left_normally",
              "left_by_exception", "reentered", "managers_reused",
              "containers_reused",
              "collected_nodes", "jit_calls", "singletons", "rejections",
              "backend_argnum_calls"),
    setup=setup,
)
