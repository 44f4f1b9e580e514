"""Layers under simulation: scripted, failing and contract-breaking layers given to the
repository's own driver loop, and the same for Flax modules."""
import numpy as np

from . import boot, core, points
from .boot import jax, jnp, act
from .core import Failure, Reject, Tree, lift, spec_build
from .world import Args, World

Template = None
from src.jax_act.layers import AbstractACTTemplate as Template  # noqa: E402,F811


class Plan:
    """Everything one execution of a scripted layer does, and its call log."""

    def __init__(self):
        self.calls = []
        self.make = 0
        self.lazy = 0
        self.runs = 0
        self.errors = []
        self.fault = None
        self.byz = None


def pack(kind, t, tables, x):
    if kind == 1:
        return (t, tables, x)
    if kind == 2:
        return core.Record(t, core.Pair(tables, x))
    if kind == 3:
        return [x, {"t": t, "tables": tables}]
    if kind == 4:
        return core.Box({"x": x, "rest": core.Pair(t, tables)})
    return {"t": t, "tables": tables, "x": x}


def unpack(kind, s):
    if kind == 1:
        return s
    if kind == 2:
        return s.left, s.right.first, s.right.second
    if kind == 3:
        return s[1]["t"], s[1]["tables"], s[0]
    if kind == 4:
        return s.item["rest"].first, s.item["rest"].second, s.item["x"]
    return s["t"], s["tables"], s["x"]


class ScriptedLayer(Template):
    """Reads its halting probabilities and updates from tables carried in the state."""

    def __init__(self, plan, world, tpl, op, start, names):
        self.plan, self.world, self.tpl, self.op = plan, world, tpl, op
        self.start, self.names = start, names

    # a callback may fail at any invocation
    def hit(self, where):
        p = self.plan
        n = {"make": p.make, "lazy": p.lazy, "run": p.runs}[where]
        f = p.fault
        if f and f["where"] == where and n == f["k"]:
            p.fired = True
            raise points.EXC[f["exc"]]("callback failed")

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        p = self.plan
        p.make += 1
        p.calls.append("make")
        p.args = (args, dict(kwargs))
        p.dep = depression_constant
        p.made_with = initial_state
        self.hit("make")
        if p.byz and p.byz["where"] == "make":
            bad = self.byzantine_controller(p.byz["kind"])
            return bad
        if self.start is not None:
            return self.start
        t = self.world.tpls[self.tpl]
        w = self.world
        dt = w.core_dtype(self.tpl)
        b = self.new_builder(list(t["batch"]), None if dt == w.core_dtype() else core.DTYPES[dt],
                             self.op.get("eps", 0.125), depression_constant)
        for ch in t["chans"]:
            b = b.define_accumulator_directly(ch["name"], self.world.chan_tree(
                self.tpl, dict(ch, how="direct"), self.op.get("dvs", 0)))
        return b.build()

    def otherwise(self, controller, c, h):
        """Honest iterations that do not consist of one step: they return a new controller, made in other ways."""
        kind = self.op["idle"]
        if kind == "reset":
            return c.reset_batches()
        if kind == "only-reset":
            return controller.reset_batches()
        if kind == "stay":
            return core.Controller.load(controller.save())
        if kind == "load":
            return core.Controller.load(c.save())
        if kind == "twice":
            for n in self.names:
                c = c.cache_update(n, c.state.defaults[n])
            return c.iterate_act(h)
        c = controller if kind == "only-edit" else c
        c = core.TensorEditor.edit_controller(c, "silence").set_iterations(c.iterations + 1).build()
        return c.reset_batches() if kind == "mixed" else c

    def byzantine_controller(self, kind):
        if kind == "empty":
            w, dt = self.world, self.world.core_dtype(self.tpl)
            return self.new_builder(list(w.tpls[self.tpl]["batch"]), None if dt == w.core_dtype() else core.DTYPES[dt],
                                    self.op.get("eps", 0.125), self.plan.dep).build()
        b = self.new_builder(list(self.world.tpls[self.tpl]["batch"]))
        full = b.define_accumulator_by_shape("a", list(self.world.tpls[self.tpl]["batch"]))
        return {"none": None, "dict": {}, "builder": full, "state": full.build().save(),
                "viewer": full.build().make_viewer(), "tuple": (full.build(),),
                "class": core.Controller}[kind]

    def setup_lazy_parameters(self, controller, state):
        p = self.plan
        p.lazy += 1
        p.calls.append("lazy")
        self.hit("lazy")
        if self.op.get("lazy"):
            self.run_iteration(controller, state)

    def run_iteration(self, controller, state):
        p = self.plan
        p.runs += 1
        p.calls.append("run")
        self.hit("run")
        sk = self.op.get("state", 0)
        t, tables, x = unpack(sk, state)
        H, U = tables["H"], tables["U"]
        h = jax.lax.dynamic_index_in_dim(H, t, 0, keepdims=False)
        extra = None
        if self.op.get("nest"):
            inner = NestedLayer(self.world)
            c, s = inner.execute_act(jnp.zeros((), jnp.int32), 1.0, 6)
            extra = (c["n"] - 1.5).sum() + (s - 3)
        c = controller
        byz = p.byz if (p.byz and p.byz["where"] == "run" and p.runs >= p.byz["k"]) else None
        kind = byz["kind"] if byz else None
        names = list(self.names)
        if p.byz and p.byz["where"] == "make" and p.byz["kind"] == "empty":
            names = []          # (reached with checking off only)
        order = self.op.get("order", 0) % max(len(names), 1)
        names = names[order:] + names[:order]
        for n, name in enumerate(names):
            if kind == "cached_some" and n > 0:
                break
            u = jax.tree_util.tree_map(lambda l: jax.lax.dynamic_index_in_dim(l, t, 0, keepdims=False), U[name])
            if extra is not None:
                u = jax.tree_util.tree_map(lambda l: l + extra.astype(l.dtype), u)
            c = c.cache_update(name, u)
        if kind not in ("cached_all", "cached_some"):
            c = c.iterate_act(h)
        if self.op.get("idle") and not byz:
            c = self.otherwise(controller, c, h)
        if kind == "recached":
            c = c.cache_update(names[-1], u)
        new = pack(sk, t + 1, tables, x * 0.5 + t.astype(x.dtype))
        if kind is None or kind in ("cached_all", "cached_some", "recached"):
            if self.op.get("pair"):
                return core.Pair(c, new)
            return c, new
        return {"list": [c, new], "ctrl": c, "none": None, "one": (c,), "three": (c, new, new), "zero": (),
                "swapped": (new, c), "builder": (self.new_builder(1), new), "statefirst": (c.save(), new),
                "same": (controller, new), "dict": {0: c, 1: new}, "viewer": (c.make_viewer(), new),
                "nonefirst": (None, new)}[kind]


def m_otherwise(kind, before, after, again):
    """What such an iteration amounts to."""
    if kind == "reset":
        return core.m_reset(after)
    if kind == "only-reset":
        return core.m_reset(before)
    if kind == "stay":
        return before
    out = (before if kind == "only-edit" else after).copy()
    if kind in ("edit", "only-edit", "mixed"):
        out.I = out.I + 1.0
    if kind == "mixed":
        out = core.m_reset(out)
    return again(out) if kind == "twice" else out


BYZ_MAKE = {"none": TypeError, "dict": TypeError, "builder": TypeError, "state": TypeError, "viewer": TypeError,
            "empty": RuntimeError, "tuple": TypeError, "class": TypeError}
BYZ_RUN = {"list": TypeError, "ctrl": TypeError, "none": TypeError, "one": RuntimeError, "three": RuntimeError,
           "zero": RuntimeError, "swapped": TypeError, "builder": TypeError, "statefirst": TypeError,
           "same": RuntimeError, "dict": TypeError, "viewer": TypeError, "nonefirst": TypeError,
           "cached_all": RuntimeError, "cached_some": RuntimeError, "recached": RuntimeError}


class NestedLayer(Template):
    """A small ACT process inside an iteration of another; its result is known exactly:
    three steps, weights .5 .25 .25 on updates 1, 2, 2 -> 1.5."""

    def __init__(self, world):
        self.world = world

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        b = self.new_builder([2], None, 0.125, depression_constant)
        return b.define_accumulator_by_shape("n", [2]).build()

    def setup_lazy_parameters(self, controller, state):
        pass

    def run_iteration(self, controller, state):
        h = jnp.where(state == 0, 0.5, jnp.where(state == 1, 0.25, 0.75)) * jnp.ones((2,))
        u = jnp.where(state == 0, 1.0, 2.0) * jnp.ones((2,))
        return controller.cache_update("n", u).iterate_act(h), state + 1


def op_drive(self, T, op):
    tpl = op["tpl"] % len(self.tpls)
    t = self.tpls[tpl]
    mode = op.get("mode", "nojit")
    batch = tuple(t["batch"])
    # where the run starts: a controller of the pool, or one built by the layer
    start_e = None
    if op.get("start"):
        start_e = self.pick(T, op, "controller")
        if start_e is None or not start_e.snap.acc or any(u is not None for u in start_e.snap.upd.values()):
            return
        tpl = start_e.tpl
        t = self.tpls[tpl]
        batch = tuple(t["batch"])
    dep, eps, maxit = op.get("dep", 1.0), op.get("eps", 0.125), float(op.get("max", 10)) if op.get("max") == "inf" else op.get("max", 10)
    byz_op = op.get("byz")
    if start_e is not None:
        m = lift(start_e.snap)
        names = sorted(start_e.snap.acc)
        base = start_e
    else:
        probe = ScriptedLayer(Plan(), self, tpl, op, None, [])
        m = core.M()
        m.kind, m.eps, m.dep, m.mode = "controller", eps, dep, None
        z = np.zeros(batch)
        dt = self.core_dtype(tpl)
        m.P, m.R, m.I, m.dtypes = z, z, z, {"P": dt, "R": dt, "I": dt}
        m.acc, m.defs, m.upd = {}, {}, {}
        m.skip = m.classes = None
        for ch in t["chans"]:
            m = self.m_define(m, ch["name"], self.chan_tree(tpl, dict(ch, how="direct"), op.get("dvs", 0)))
        names = [ch["name"] for ch in t["chans"]]
        base = None
        del probe
    # tables, resolved against the model
    steps = min(op.get("steps", 6), 40)
    hspecs = op.get("hs") or [[0.25]]
    dtP = m.dtypes["P"]
    hs, us, models = [], [], [m]

    def advance(before, after, h):
        if not op.get("idle") or byz_op:
            return after

        def again(mm):
            for nm in names:
                mm = mm.copy()
                mm.upd[nm] = mm.defs[nm]
            return core.m_iterate(mm, np.asarray(h, np.float64), self.regime)
        return m_otherwise(op["idle"], before, after, again)
    fake = core.Snap()
    for n in range(steps):
        cur = models[-1]
        fake.P, fake.eps, fake.dep = cur.P, cur.eps, cur.dep
        h = self.halting(hspecs[n % len(hspecs)], fake)
        h = np.asarray(np.where(np.isfinite(h), h, 0.25), dtP)
        trees = {}
        for i, nm in enumerate(names):
            a = m.acc[nm]
            leaves = [self.array((op.get("vs", 0) + 13 * n + i) * 7 + k if op.get("vs") else 0, l.shape, d,
                                 nb=len(batch), chan=nm) for k, (l, d) in enumerate(zip(a.leaves, a.dtypes))]
            trees[nm] = core.tree_unflatten(a.treedef, leaves)
        mm = cur
        for nm in names:
            mm = core.m_cache(mm, nm, Tree(trees[nm]))
        mm = advance(cur, core.m_iterate(mm, h.astype(np.float64), self.regime), h)
        if mm.skip is not None and mm.skip.any():
            return
        models.append(mm)
        hs.append(h)
        us.append(trees)
    # the documented loop
    k = 0
    maxit = min(maxit, 30) if op.get("byz") else maxit
    while k < maxit and not bool(core.halted(models[k]).all()):
        if k == (150 if op.get("long") else 30):                # bounds the run, not the limits tried on runs which halt
            maxit = k
            break
        k += 1
        if k >= len(models):        # past the table the index is clamped: the last row repeats
            mm = models[-1]
            for nm in names:
                mm = core.m_cache(mm, nm, Tree(us[-1][nm]))
            mm = advance(models[-1], core.m_iterate(mm, np.asarray(hs[-1], np.float64), self.regime), hs[-1])
            if mm.skip is not None and mm.skip.any():
                return
            models.append(mm)
    final = models[k].copy()
    final.kind, final.classes, final.skip = "controller", None, None
    tables = {"H": jnp.asarray(np.stack(hs), core.DTYPES[dtP]),
              "U": jax.tree_util.tree_map(lambda *x: jnp.stack(x), *us)}
    x0 = jnp.asarray(3.0, jnp.float32)
    x, sk = 3.0, op.get("state", 0)
    for n in range(k):
        x = x * 0.5 + n
    state = pack(sk, jnp.zeros((), jnp.int32), tables, x0)
    plan = Plan()
    layer = ScriptedLayer(plan, self, tpl, op, start_e.obj if start_e else None, names)
    check = bool(op.get("check", 1))
    extra_args = [((), {}), (("alpha", 2), {"beta": 3}), (("alpha", None), {"beta": None}), ((0,), {"beta": False, "name": ""}),
                  ((), {"beta": (), "layer": 1, "state": None})][op.get("args", 0)]
    lazy_runs = 1 if op.get("lazy") else 0

    def reset_plan(fault, byz):
        plan.__init__()
        plan.fault, plan.byz, plan.fired = fault, byz, False

    # a depression schedule hands over arrays
    given = jnp.asarray(dep, jnp.float32) if op.get("deparr") else dep

    def call_layer(st, dep=given, maxit=maxit):
        if op.get("spare") and not extra_args[0]:
            # what equals its documented default is left out
            kw = {k: v for k, v, d in (("depression_constant", dep, 1.0), ("max_iterations", maxit, 10), ("check_for_errors", check, True))
                  if not (type(v) is type(d) and v == d)}
            return layer.execute_act(st, **kw, **extra_args[1])
        if op.get("kw"):
            return layer.execute_act(st, depression_constant=dep, max_iterations=maxit, check_for_errors=check,
                                     **extra_args[1])
        return layer.execute_act(st, dep, maxit, check, *extra_args[0], **extra_args[1])

    def neighbours():
        """Runs of other lengths beside the one that is checked, for vectorised execution."""
        fill = {"P": [0.0, 1.0, 0.125], "x": [1.0, 7.0, -2.0]}
        out = []
        for r in range(1 + op.get("more", 1) % 2):
            other = jax.tree_util.tree_map(lambda a: a * 3 + 1, tables["U"])
            h = jnp.full_like(tables["H"], fill["P"][(r + op.get("vs", 0)) % 3])
            out.append((pack(sk, jnp.zeros((), jnp.int32), {"H": h, "U": other}, jnp.asarray(fill["x"][r], jnp.float32)),
                        0.5, (maxit + 3 * r) % 7))
        return out

    def vectorised():
        runs = neighbours()
        at = op.get("at", 0) % (len(runs) + 1)
        runs.insert(at, (state, dep, maxit))
        states = jax.tree_util.tree_map(lambda *a: jnp.stack(a), *[r[0] for r in runs])
        deps, limits = jnp.asarray([r[1] for r in runs], jnp.float32), jnp.asarray([r[2] for r in runs], jnp.int32)
        f = call_layer
        if op.get("jit"):
            f = jax.jit(lambda s, d, m: jax.vmap(call_layer)(s, d, m))
        else:
            f = jax.vmap(call_layer)
        return jax.tree_util.tree_map(lambda a: a[at], f(states, deps, limits))

    def run():
        reset_plan(plan.fault, plan.byz)
        if mode == "vmap":
            c, s = vectorised()
        elif mode == "prog" and op.get("traced"):
            c, s = jax.jit(lambda *a: call_layer(*a))(state, given, maxit)
        elif mode == "prog":
            c, s = jax.jit(lambda st: call_layer(st))(state)
        else:
            c, s = call_layer(state)
        run.state = s
        return c

    def check_result(c):
        got = run.state
        try:
            gt, gtab, gx = unpack(sk, got)
        except Exception:
            self.flag("drive", "state", None, "the final state has another structure: %r" % (type(got),))
            return
        if jax.tree_util.tree_structure(got) != jax.tree_util.tree_structure(state):
            self.flag("drive", "state", None, "the final state has another structure")
        elif int(gt) != k:
            self.flag("drive", "iterations", None, "%d iterations were run, expected %d" % (int(gt), k))
        elif abs(float(gx) - x) > 1e-5 * max(1.0, abs(x)):
            self.flag("drive", "state", None, "the final state holds %r, expected %r" % (float(gx), x))
        elif not core.same_tree(Tree(gtab), Tree(tables)):
            self.flag("drive", "state", None, "tables in the state were altered")
        if plan.make != 1:
            self.flag("drive", "calls", None, "make_controller was called %d times" % plan.make)
        if plan.lazy != 1:
            self.flag("drive", "calls", None, "setup_lazy_parameters was called %d times" % plan.lazy)
        if plan.calls[:2] != ["make", "lazy"]:
            self.flag("drive", "calls", None, "callbacks were called in the order %s" % plan.calls[:4])
        if mode == "nojit" and plan.runs != k + lazy_runs:
            self.flag("drive", "calls", None, "run_iteration was called %d times, expected %d" % (
                plan.runs, k + lazy_runs))
        want = (tuple(extra_args[0]) if not op.get("kw") else (), extra_args[1])
        if plan.args != want:
            self.flag("drive", "calls", None, "make_controller got %s, expected %s" % (plan.args, want))
        if mode not in ("prog", "vmap") and float(plan.dep) != dep:
            self.flag("drive", "calls", None, "depression constant %r reached make_controller, not %r" % (plan.dep, dep))
        if mode == "nojit" and not core.same_tree(Tree(plan.made_with), Tree(state)):
            self.flag("drive", "calls", None, "make_controller got another initial state")

    total_runs = lazy_runs + k if mode == "nojit" else lazy_runs + 1
    fault, byz = op.get("fault"), op.get("byz")
    saved, self.tol = self.tol, max(self.tol, 2e-7)
    sub = dict(op, mode={"nojit": "nojit", "prog": "prog"}.get(mode, "prog"))
    args = None
    if mode == "nojit":
        args = Args()
        args.add(state, "initial_state")
    try:
        self.count("drive:" + mode)
        if fault:
            limit = 1 if fault["where"] != "run" else total_runs
            reached = fault["k"] <= limit
            if reached:
                reset_plan(fault, None)

                def expect():
                    raise Reject(Failure(points.EXC[fault["exc"]]), why="the layer's %s callback raised %s" % (
                        fault["where"], fault["exc"]))
                self.call(T, dict(sub, inj=None), "drive", run, expect, tpl, args)
                if not plan.fired:
                    self.flag("drive", "calls", None, "%s was not called a %d. time" % (fault["where"], fault["k"]))
                self.count("fault:callback-" + fault["where"])
            reset_plan(None, None)
        elif byz:
            reached = byz["where"] == "make" or (byz["k"] <= total_runs and not lazy_runs and
                                                 (mode == "nojit" or byz["k"] == 1))
            if reached and check:
                if byz["where"] == "run" and byz["kind"] == "cached_some" and len(names) < 2:
                    byz = dict(byz, kind="cached_all")
                reset_plan(None, byz)
                kinds = BYZ_MAKE if byz["where"] == "make" else BYZ_RUN

                def expect():
                    raise Reject(kinds[byz["kind"]], why="layer breaks the contract: %s/%s" % (byz["where"], byz["kind"]))
                before = len(self.mism)
                self.call(T, dict(sub, inj=None), "drive_byz", run, expect, tpl, args)
                want = byz["k"] if byz["where"] == "run" else 0
                if len(self.mism) == before and plan.runs != want and mode == "nojit":
                    self.flag("drive_byz", "late", None, "rejected after %d iterations, not %d" % (plan.runs, want))
                self.count("fault:byzantine-" + byz["where"])
            elif reached and byz["where"] == "run" and byz["kind"] == "same" and not check and byz["k"] <= k:
                # with checking off the loop charges ahead: nothing moves any more, up to the limit
                reset_plan(None, byz)
                stuck = models[byz["k"] - 1].copy()
                stuck.kind, stuck.classes, stuck.skip = "controller", None, None

                def check_stuck(c):
                    n = int(unpack(sk, run.state)[0])
                    if n != -(-maxit // 1):
                        self.flag("drive_byz", "iterations", None, "%d iterations were run, expected %d" % (n, maxit))
                self.call(T, dict(sub, inj=None), "drive_byz", run, lambda: stuck, tpl, args, check=check_stuck)
                self.count("fault:byzantine-unchecked")
            elif reached and byz["where"] == "run" and byz["kind"] == "list" and not check:
                # unpacks like a pair
                reset_plan(None, byz)
                self.call(T, dict(sub, inj=None), "drive_byz", run, lambda: final, tpl, args)
                self.count("fault:byzantine-unchecked")
            elif byz["where"] == "make" and byz["kind"] == "empty" and not check and start_e is None:
                # nothing is accumulated, but the loop runs
                reset_plan(None, byz)
                bare = m.copy()
                bare.acc, bare.defs, bare.upd = {}, {}, {}
                n = 0
                while n < maxit and not bool(core.halted(bare).all()):
                    bare = core.m_iterate(bare, np.asarray(hs[min(n, steps - 1)], np.float64), self.regime)
                    n += 1
                    if bare.skip is not None and bare.skip.any():
                        return
                bare.kind, bare.classes, bare.skip = "controller", None, None
                self.call(T, dict(sub, inj=None), "drive_byz", run, lambda: bare, tpl, args)
                self.count("fault:byzantine-unchecked")
            reset_plan(None, None)
        name = "drive" if not byz else "drive_honest"
        e = self.call(T, sub, name, run, lambda: final, tpl, args, check=check_result)
        if e is not None:
            self.count("drive-steps", k)
            if k == maxit and not bool(core.halted(final).all()):
                self.count("drive-limit")
            self.keep(T, op, e)
    finally:
        self.tol = saved


World.op_drive = op_drive


# ---- Flax ---------------------------------------------------------------------------
import flax  # noqa: E402
from flax import linen as nn  # noqa: E402
from src.jax_act.frameworks.flax import FlaxACTLayer  # noqa: E402


class FlaxPlan:
    def __init__(self):
        self.runs = 0
        self.makes = 0
        self.concrete_inits = []
        self.fault = None
        self.fired = False


def _counted(plan, name, value):
    def init(key, shape, dtype=jnp.float32):
        if not isinstance(key, jax.core.Tracer):
            plan.concrete_inits.append(name)
        return (jnp.arange(int(np.prod(shape)), dtype=dtype).reshape(shape) % 3 - 1) * value + 0.25
    return init


class Inline(nn.Module):
    """A module with inline parameter definitions, used inside the layer's step."""
    width: int
    plan: object

    @nn.compact
    def __call__(self, x):
        k = self.param("kernel", _counted(self.plan, "kernel", 0.5), (self.width, self.width))
        b = self.param("bias", _counted(self.plan, "bias", 0.25), (self.width,))
        return x @ k + b


class Inner(nn.Module):
    """A module with inline sub-modules (known finding K1: see known-findings.txt)."""
    width: int
    plan: object

    @nn.compact
    def __call__(self, x):
        return nn.Dense(self.width, kernel_init=_counted(self.plan, "kernel", 0.5),
                        bias_init=_counted(self.plan, "bias", 0.25))(x)


class SimFlax(FlaxACTLayer):
    width: int
    batch: tuple
    plan: object
    nested: int = 0
    eps: float = 0.125
    early: int = 0

    def setup(self):
        if self.nested:
            self.proj = (Inline if self.nested == 1 else Inner)(self.width, self.plan)
        else:
            self.proj = nn.Dense(self.width, kernel_init=_counted(self.plan, "kernel", 0.5),
                                 bias_init=_counted(self.plan, "bias", 0.25))
        self.gate = self.param("gate", lambda key: jnp.asarray(1.0, jnp.float32))

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        self.plan.makes += 1
        b = self.new_builder(list(self.batch), None, self.eps, depression_constant)
        if self.early:
            # sub-modules may also be used here; what they give is the default
            b = b.define_accumulator_directly("out", self.proj(initial_state["x"]))
        else:
            b = b.define_accumulator_by_shape("out", list(self.batch) + [self.width])
        return b.define_accumulator_by_shape("in", {"x": list(self.batch) + [self.width]}).build()

    def run_iteration(self, controller, state):
        p = self.plan
        p.runs += 1
        if p.fault is not None and p.runs == p.fault["k"]:
            p.fired = True
            raise points.EXC[p.fault["exc"]]("callback failed")
        t, x = state["t"], state["x"]
        h = jax.lax.dynamic_index_in_dim(state["H"], t, 0, keepdims=False) * self.gate
        y = self.proj(x)
        c = controller.cache_update("in", {"x": x})
        c = c.cache_update("out", y).iterate_act(h)
        return c, {"t": t + 1, "H": state["H"], "x": 0.5 * y}

    def __call__(self, state, dep=1.0, maxit=10):
        return self.execute_act(state, dep, maxit)


class NoSetup(FlaxACTLayer):
    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        return self.new_builder([2]).define_accumulator_by_shape("out", [2]).build()

    def run_iteration(self, controller, state):
        return controller.cache_update("out", jnp.ones([2])).iterate_act(jnp.ones([2])), state

    def __call__(self, state):
        return self.execute_act(state)


class Outer(nn.Module):
    """The layer as one sub-module of a larger model, used twice with the same parameters."""
    width: int
    batch: tuple
    plan: object
    nested: int = 0
    eps: float = 0.125
    early: int = 0

    def setup(self):
        self.layer = SimFlax(self.width, self.batch, self.plan, self.nested, self.eps, self.early)

    def __call__(self, state, dep=1.0, maxit=10):
        self.layer(state, dep, maxit)
        return self.layer(state, dep, maxit)


def op_flax(self, T, op):
    do = op.get("do", "init")
    if do == "nosetup":
        def expect():
            raise Reject(NotImplementedError, why="setup was not implemented")
        self.call(T, dict(op, mode="prog"), "flax", lambda: NoSetup().init(jax.random.PRNGKey(0), jnp.zeros([2])),
                  expect, 0)
        return
    if do == "init" or getattr(T, "flax", None) is None:
        plan = FlaxPlan()
        cls = Outer if op.get("outer") else SimFlax
        batch = tuple(op.get("batch", [2]))
        T.flax = {"plan": plan, "batch": batch, "W": op.get("W", 2), "nested": op.get("nested", 0),
                  "outer": op.get("outer", 0), "eps": op.get("eps", 0.125), "params": None,
                  "layer": cls(op.get("W", 2), batch, plan, op.get("nested", 0), op.get("eps", 0.125),
                               op.get("early", 0)), "early": op.get("early", 0)}
        do = "init"
    fx = T.flax
    plan, layer, W, batch = fx["plan"], fx["layer"], fx["W"], fx["batch"]
    dep, maxit = op.get("dep", 1.0), op.get("max", 10)
    mode = op.get("mode", "nojit")
    if do == "apply" and fx["params"] is None:
        return

    def expected_params(vs):
        def val(name, shape, value):
            if vs == 0:
                return (np.arange(int(np.prod(shape))).reshape(shape) % 3 - 1) * value + 0.25
            return np.round(core.raw_values(vs + len(name), shape, "dyadic") * 2) / 4.0
        return val("kernel", (W, W), 0.5), val("bias", (W,), 0.25), (1.0 if vs % 2 == 0 else 0.5)

    vs = 0 if do == "init" else op.get("params", 0)
    K, b, gate = expected_params(vs)
    # the documented loop in the model
    dt = self.core_dtype()
    m = core.M()
    m.kind, m.eps, m.dep, m.mode = "controller", fx["eps"], dep, None
    z = np.zeros(batch)
    m.P, m.R, m.I, m.dtypes = z, z, z, {"P": dt, "R": dt, "I": dt}
    m.acc, m.defs, m.upd = {}, {}, {}
    m.skip = m.classes = None
    zero = np.zeros(batch + (W,), np.float32)
    x = core.raw_values(op.get("vs", 1), batch + (W,), "dyadic")
    m = self.m_define(m, "out", np.asarray(x @ K + b, np.float32) if fx["early"] else zero)
    m = self.m_define(m, "in", {"x": zero})
    hspecs = op.get("hs") or [[0.25]]
    steps = min(op.get("steps", 5), 12)
    fake = core.Snap()
    x0 = jnp.asarray(x, jnp.float32)
    hs, k, cur = [], 0, m
    while k < max(maxit, steps):
        fake.P, fake.eps, fake.dep = cur.P, cur.eps, cur.dep
        if k < steps:
            h = self.halting(hspecs[k % len(hspecs)], fake)
            h = np.where(np.isfinite(h), np.clip(h, 0, 1), 0.25)
            # the gate halves what is fed in
            hs.append(np.asarray(h, dt))
        if k < maxit and not bool(core.halted(cur).all()):
            hh = np.asarray(hs[min(k, steps - 1)], np.float64) * gate
            y = x @ K + b
            f32 = lambda v: Tree(np.asarray(v, np.float32))
            nxt = core.m_cache(cur, "in", Tree({"x": np.asarray(x, np.float32)}))
            nxt = core.m_cache(nxt, "out", f32(y))
            cur = core.m_iterate(nxt, hh, "dyadic")
            x = 0.5 * y
            k += 1
            if k < steps:
                continue
            if k < maxit:
                continue
        if len(hs) >= steps:
            break
        if k >= maxit or bool(core.halted(cur).all()):
            while len(hs) < steps:
                hs.append(np.full(batch, 0.25, dt))
            break
    H = jnp.asarray(np.stack(hs), core.DTYPES[dt])
    state = {"t": jnp.zeros((), jnp.int32), "H": H, "x": x0}
    final = cur.copy()
    final.kind, final.classes, final.skip = "controller", None, None

    def params_tree():
        d = {"kernel": jnp.asarray(K, jnp.float32), "bias": jnp.asarray(b, jnp.float32)}
        p = {"proj": {"Dense_0": d} if fx["nested"] == 2 else d, "gate": jnp.asarray(gate, jnp.float32)}
        return {"params": {"layer": p} if fx["outer"] else p}
    want = params_tree()
    if do == "apply":
        variables = want if op.get("fresh", 1) else fx["params"]
        if not op.get("fresh", 1) and vs != 0:
            variables = want
        args = Args()
        args.add(variables, "params")
    else:
        args = None
    got = {}

    def run():
        plan.runs = plan.makes = 0
        plan.concrete_inits = []
        got.clear()
        if do == "init":
            if mode == "prog":
                out, v = jax.jit(lambda s: layer.init_with_output(jax.random.PRNGKey(op.get("key", 0)), s, dep, maxit),
                                 )(state)
            else:
                if op.get("create"):
                    # parameters may as well be created by apply
                    out, v = layer.apply({}, state, dep, maxit, mutable=["params"],
                                         rngs={"params": jax.random.PRNGKey(op.get("key", 0))})
                else:
                    out, v = layer.init_with_output(jax.random.PRNGKey(op.get("key", 0)), state, dep, maxit)
            got["vars"] = v
        elif op.get("mutable"):
            out, v = layer.apply(variables, state, dep, maxit, mutable=["params"])
            got["vars"] = v
        elif mode == "prog" and op.get("traced"):
            out = jax.jit(lambda v, s, d, m: layer.apply(v, s, d, m))(variables, state, dep, maxit)
        elif mode == "prog":
            out = jax.jit(lambda v, s: layer.apply(v, s, dep, maxit))(variables, state)
        else:
            out = layer.apply(variables, state, dep, maxit)
        got["state"] = out[1]
        return out[0]

    def check(c):
        s = got["state"]
        if int(s["t"]) != k:
            self.flag("flax", "iterations", None, "%d iterations were run, expected %d" % (int(s["t"]), k))
        elif np.abs(f(s["x"]) - x).max(initial=0) > 1e-4 * max(1.0, np.abs(x).max(initial=0)):
            self.flag("flax", "state", None, "final state %s, expected %s" % (f(s["x"]).tolist(), x.tolist()))
        uses = 2 if fx["outer"] else 1
        lazy = uses if "vars" in got else 0
        if plan.makes != uses:
            self.flag("flax", "calls", None, "make_controller was called %d times, expected %d" % (plan.makes, uses))
        if mode == "nojit" and plan.runs != uses * k + lazy:
            self.flag("flax", "calls", None, "run_iteration was called %d times, expected %d" % (
                plan.runs, uses * k + lazy))
        if "vars" in got:
            v = flax.core.unfreeze(got["vars"])
            if jax.tree_util.tree_structure(v) != jax.tree_util.tree_structure(want):
                self.flag("flax", "params", None, "parameters %s, expected %s" % (
                    jax.tree_util.tree_structure(v), jax.tree_util.tree_structure(want)))
            elif not all(np.array_equal(f(a), f(b)) for a, b in zip(jax.tree_util.tree_leaves(v),
                                                                    jax.tree_util.tree_leaves(want))):
                self.flag("flax", "params", None, "parameter values differ from the initialisers'")
            if do == "init" and mode != "prog" and sorted(plan.concrete_inits) != sorted(set(plan.concrete_inits)):
                self.flag("flax", "params", None, "initialisers ran more than once: %s" % plan.concrete_inits)
    f = core.f64
    saved, self.regime = self.regime, "flax"
    sub = dict(op, mode={"nojit": "nojit"}.get(mode, "prog"))
    self.count("flax:%s:%s" % (do, mode))
    try:
        fault = op.get("fault")
        runs_min = {"init": 2, "apply": 1}[do] if mode != "nojit" else (1 if do == "init" else 0) + k
        if fault and (fault["k"] <= runs_min) and fx["nested"] < 2:
            plan.fault, plan.fired = fault, False

            def expect():
                raise Reject(Failure(points.EXC[op["fault"]["exc"]]), why="run_iteration raised")
            self.call(T, dict(sub, inj=None), "flax", run, expect, 0, args)
            self.count("fault:callback-flax")
        plan.fault = None
        name = "flax" if fx["nested"] < 2 or mode == "nojit" else "flax-inline-submodule"
        e = self.call(T, sub, name, run, lambda: final, 0, args, check=check)
        if e is not None and e in self.pool:
            self.pool.remove(e)          # of no template's shape
    finally:
        self.regime = saved
    if do == "init" and "vars" in got:
        fx["params"] = flax.core.unfreeze(got["vars"])


World.op_flax = op_flax
