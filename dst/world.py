"""The simulated world: live objects of the repository, the operations clients apply to
them, and the step-by-step refinement check against the reference model."""
import contextlib
import copy
import json
import gc
import pickle
import warnings
import zlib

import numpy as np

from . import boot, core, points
from .boot import jax, jnp
from .core import (Failure, Mismatch, Reject, Snap, Tree, changed_since, compare, diff_snaps, f64, lift, snap,
                   spec_build)
from src.jax_act.core import utils as act_utils

Controller, Builder, Viewer, TensorEditor = core.Controller, core.Builder, core.Viewer, core.TensorEditor

JITTED = {}
PROG_LEN = {"jit": 2, "scan": 4, "while": 4, "vmap": 2, "vmap2": 3, "pmap": 2, "cond": 4, "long": 24}
FRESH = {"new_builder", "define", "build", "cache", "iterate", "reset", "view", "mask", "transform", "edit", "set", "ebuild"}
EPS_CHOICES = [0.125, 0.25, 0.5, 2.0 ** -6, 2.0 ** -10]


def jitted(key, make):
    fn = JITTED.get(key)
    if fn is None:
        fn = JITTED[key] = make()
    return fn


def clear_jitted():
    JITTED.clear()


class Entry:
    __slots__ = ("obj", "snap", "tpl", "kind", "seq", "led")

    def __init__(self, obj, s, tpl, seq):
        self.obj, self.snap, self.tpl, self.seq = obj, s, tpl, seq
        self.kind = s.kind
        self.led = None


class Opaque:
    """Not a number, not an array."""


class Args:
    """Arguments handed to the repository, frozen so that we can see whether it altered them."""

    def __init__(self):
        self.items = []

    def add(self, value, label):
        if value is not None:
            self.items.append((label, value, Tree(value)))
        return value

    def changed(self):
        return [label for label, value, frozen in self.items if not core._tree_unchanged(value, frozen)]


class Task:
    """One simulated client: its cursor and its context at the points."""

    def __init__(self, index, ctx):
        self.index = index
        self.ctx = ctx
        self.cur = {}
        self.stale = []


class Stop(Exception):
    pass


def carries(error, cls):
    """Whether an error is, or was raised because of, one of the given class."""
    todo, seen = [error], set()
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        if isinstance(e, cls):
            return True
        todo += [e.__cause__, e.__context__]
    return False


def reaches(error, cls):
    """Whether a failure reached the caller: as itself, or (only what is no interrupt) as the cause of an error."""
    return carries(error, cls) if issubclass(cls, Exception) else isinstance(error, cls)


def _wrap_reject(fn):
    try:
        return fn()
    except Reject as r:
        return r


class World:
    def __init__(self, trace, twin=None, threads=False):
        self.trace = trace
        self.cfg = trace["cfg"]
        self.tpls = self.cfg["tpls"] if twin is None else twin.tpls(self.cfg["tpls"])
        if not boot.X64 and any(d == "float64" for t in self.tpls for d in [t.get("core")] + [ch["dtype"] for ch in t["chans"]]):
            self.tpls = json.loads(json.dumps(self.tpls).replace('"float64"', '"float32"'))    # as JAX does
        # double precision throughout: numbers may be finer than single precision holds, and still exact
        self.fine = self.cfg.get("fine") if boot.X64 and self.cfg.get("regime", "dyadic") == "dyadic" and all(
            t.get("core", "float64") == "float64" and all(ch["dtype"] == "float64" for ch in t["chans"])
            for t in self.cfg["tpls"]) else None
        self.shared = {} if self.cfg.get("share") else None
        self.regime = self.cfg.get("regime", "dyadic")
        self.tol = 0.0 if self.regime == "dyadic" else 1e-6
        self.pool = []
        self.mism = []
        self.stats = {}
        self.log = []
        self.states = set()
        self.seq = 0
        self.twin = twin
        self.threads = threads
        self.names_too = trace.get("scen") == "noise"    # the order in which names are listed, too
        self.record = [] if twin is not None else None
        self.ckpt = None
        self.stop_on_mismatch = True
        self.tags = ()

    # -- bookkeeping ------------------------------------------------------------------
    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def note(self, *parts):
        self.log.append(" ".join(str(p) for p in parts))

    def flag(self, op, field, lanes, detail):
        m = Mismatch(op, field, lanes, detail)
        self.mism.append((self.now(), m))
        self.note("MISMATCH", repr(m))

    def now(self):
        ctx = points.CTX.get(points._get_ident())
        return ctx.opno if ctx is not None else 0

    def add(self, obj, tpl):
        s = snap(obj)
        e = Entry(obj, s, tpl, self.seq)
        self.seq += 1
        self.pool.append(e)
        if len(self.pool) > 48:
            del self.pool[0]
        return e

    def digest(self, s):
        d = 0
        for f in (s.P, s.R, s.I):
            d = zlib.crc32(np.ascontiguousarray(f).tobytes(), d)
        for group in (s.acc, s.defs, s.upd):
            for k in sorted(group):
                d = zlib.crc32(k.encode(), d)
                if group[k] is None:
                    d = zlib.crc32(b"-", d)
                    continue
                for l in group[k].leaves:
                    d = zlib.crc32(np.ascontiguousarray(l).tobytes(), d)
        return "%08x" % d

    def abstract(self, e):
        s = e.snap
        thr = 1 - s.eps
        P = f64(s.P).ravel()
        self.states.add((e.kind, int((P > thr).sum()), int(((P > 0) & (P <= thr)).sum()), int((P == 0).sum()),
                         sum(u is not None for u in s.upd.values()), len(s.upd),
                         int(min(np.nan_to_num(f64(s.I)).max(), 40)) if s.I.size else 0))

    # -- selection --------------------------------------------------------------------
    def pick(self, T, op, kind, key="c"):
        """selector 0: the client's own latest object; n>0: any object of the shared pool"""
        sel = op.get(key, 0)
        if sel == 0 and kind in T.cur:
            return T.cur[kind]
        options = [e for e in self.pool if e.kind == kind]
        if not options:
            return T.cur.get(kind)
        return options[-((sel - 1) % len(options)) - 1] if sel else options[-1]

    def keep(self, T, op, e):
        if op.get("keep", 1):
            T.cur[e.kind] = e

    # -- values -----------------------------------------------------------------------
    def dtype_core(self, s):
        return s.P.dtype

    def array(self, vs, shape, dtype, as_np=False, poison=None, chan=None, nb=None):
        v = core.raw_values(vs, tuple(shape), self.regime)
        if self.fine == "u" and dtype == "float64":
            v = v * (1 + 2.0 ** -28)
        if self.twin is not None:
            v = self.twin.values(v, vs, tuple(shape), self.regime, nb, chan)
        if poison is not None and nb is not None and v.size and dtype != "int32":
            lanes = int(np.prod(shape[:nb])) if nb else 1
            v = v.reshape((lanes, -1)).copy() if v.size else v
            for lane, what in poison:
                v[lane % lanes] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "big": 2.0 ** 40}[what]
            v = v.reshape(shape)
        if as_np and shape and dtype in ("float32", "float64", "float16"):
            # (never of shape (): numpy turns those into scalars of float64 as soon as they are multiplied)
            return np.asarray(v, dtype=dtype)
        out = jnp.asarray(v, dtype=core.DTYPES[dtype])
        if self.shared is not None and not isinstance(out, jax.core.Tracer):
            # equal arrays are the very same object wherever they are used
            out = self.shared.setdefault((v.tobytes(), v.shape, dtype), out)
        return out

    def halting(self, spec, s, ulp=2.0 ** -10):
        """Halting probabilities from a per-lane specification, resolved against the state."""
        P = f64(s.P)
        thr = 1 - s.eps
        flat = np.zeros(P.size)
        solo = [x for x in spec if isinstance(x, list) and x[0] == "solo"]
        spec = [x for x in spec if x not in solo]
        for i, p in enumerate(P.ravel()):
            item = spec[i % len(spec)] if spec else 0.25
            if solo and i == solo[0][1] % P.size:       # one lane unlike all others
                item = solo[0][2]
            if isinstance(item, list):      # ["edge", delta]: land at threshold + delta
                d = s.dep
                want = thr - p + (ulp if item[1] == "ulp" else item[1])
                if self.regime == "dyadic" and d in (1.0, 0.5, 0.25, 2.0) and 0 <= want / d <= 1:
                    flat[i] = want / d
                else:
                    flat[i] = 0.25
            elif item == "tiny":
                flat[i] = 2.0 ** -12 if self.regime == "dyadic" and not any(
                    "core" in t for t in self.tpls) else 0.0625
            elif self.fine == "h" and not isinstance(item, str) and 0 < item < 0.75:
                flat[i] = item + 2.0 ** -33
            elif isinstance(item, str):
                flat[i] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[item]
            else:
                flat[i] = item
        h = flat.reshape(P.shape)
        if self.twin is not None:
            h = self.twin.halting(h, self, s)
        return h

    # -- the one place real code is called --------------------------------------------
    def invoke(self, T, op, fn, inject=True):
        """-> (value, error). Points are live only inside; the trace decides faults there."""
        if not self.threads and (op.get("who") if inject else op["inj"].get("other")):
            # another thread of the same process makes this call
            self.count("other-thread")
            return points.elsewhere(T.ctx, lambda: self._invoke(T, op, fn, inject))
        return self._invoke(T, op, fn, inject)

    def _invoke(self, T, op, fn, inject):
        inj = op.get("inj") if inject else None
        mode = op.get("mode", "eager")
        cm = jax.disable_jit() if mode == "nojit" else contextlib.nullcontext()
        value = error = None
        if mode in ("jit", "prog"):
            try:
                value = fn()
            except points.TaskKilled:
                raise
            except BaseException as e:
                error = e
        else:
            try:
                with cm:
                    with points.run_real(T.ctx, inj):
                        value = fn()
            except points.TaskKilled:
                raise
            except BaseException as e:
                error = e
            finally:
                T.ctx.on = False
        self.count("points", T.ctx.count)
        if inj and T.ctx.fired:
            self.count("fault:" + inj["exc"])
        return value, error

    def call(self, T, op, name, fn, expect, tpl, args=None, check=None, wrap=True):
        """Run one operation and check it against the model; returns the new Entry or None."""
        exp = _wrap_reject(expect)
        self.count("op:" + name)
        if op.get("mode", "eager") != "eager":
            self.count("mode:" + op["mode"])
        value, error = self.invoke(T, op, fn)
        fired = bool(op.get("inj")) and T.ctx.fired
        if fired:
            self.note(T.index, self.now(), name, "INJECTED", op["inj"]["exc"], "@", T.ctx.count, T.ctx.where)
            if error is None:
                self.count("fault-swallowed")
                self.judge(T, name, exp, value, error, tpl, check, True, register=False)
                if not isinstance(exp, Reject):
                    self.flag(name, "swallowed", None, "the %s never reached the caller" % op["inj"]["exc"])
            elif not reaches(error, points.EXC[op["inj"]["exc"]]) and not isinstance(exp, Reject):
                self.flag(name, "replaced", None, "the %s reached the caller as an unrelated %s" % (
                    op["inj"]["exc"], type(error).__name__))
            self.verify_pool("after-fault:" + name, args)
            # the caller retries; the fault must have left no trace
            value, error = self.invoke(T, op, fn, inject=False)
            self.count("retries")
        elif op.get("inj"):
            self.count("fault-missed")
        e = self.judge(T, name, exp, value, error, tpl, check, wrap)
        self.verify_pool(name, args)
        return e

    def judge(self, T, name, exp, value, error, tpl, check, wrap, register=True):
        if self.record is not None:
            self.record.append([self.now(), name, None if error is None else type(error).__name__])
        if isinstance(exp, Reject):
            self.count("reject:" + name)
            if error is None:
                self.flag(name, "accepted", None, "accepted, but must be rejected: " + exp.why)
            elif isinstance(exp.types[0], Failure):
                if not reaches(error, exp.types[0].cls) or not isinstance(error, exp.types[0].wrap or BaseException):
                    self.flag(name, "errtype", None, "raised %s (%s), not because of the failure (%s)" % (
                        type(error).__name__, str(error)[:100], exp.why))
            elif not isinstance(error, exp.types):
                self.flag(name, "errtype", None, "raised %s, expected %s (%s)" % (
                    type(error).__name__, "/".join(t.__name__ for t in exp.types), exp.why))
            self.note(T.index, self.now(), name, "rejected", type(error).__name__)
            return None
        if error is not None:
            self.flag(name, "error", None, "raised %s: %s" % (type(error).__name__, str(error).strip()[:300]))
            self.note(T.index, self.now(), name, "error", type(error).__name__)
            return None
        if name in FRESH and any(e.obj is value for e in self.pool):
            self.flag(name, "persist:same", None, "returned an object that existed before instead of a new one")
        if check is not None:
            try:
                check(value)
            except Exception as e:
                self.flag(name, "unreadable", None, "%s: %s" % (type(e).__name__, e))
        if not wrap:
            self.note(T.index, self.now(), name, "ok")
            return None
        try:
            e = Entry(value, snap(value), tpl, self.seq)
            if self.names_too:
                self.note("names", e.snap.order)
        except Exception as err:
            self.flag(name, "unreadable", None, "%s: %s" % (type(err).__name__, err))
            return None
        if self.record is not None:
            self.record[-1][2] = e
        if exp is not None:
            try:
                found = compare(name, exp, e.snap, self.regime, self.tol)
            except Exception as err:    # such as object arrays where numbers belong
                self.flag(name, "unreadable", None, "%s: %s" % (type(err).__name__, err))
                return None
            for m in found:
                self.mism.append((self.now(), m))
                self.note("MISMATCH", repr(m))
        if not register:
            return None
        self.seq += 1
        self.pool.append(e)
        if len(self.pool) > 48:
            del self.pool[0]
        self.note(T.index, self.now(), name, self.digest(e.snap))
        self.abstract(e)
        return e

    def verify_pool(self, name, args=None):
        for e in self.pool:
            bad = changed_since(e.obj, e.snap)
            if bad:
                self.flag(name, "persist:" + e.kind, None, "an existing %s changed: %s" % (e.kind, ",".join(bad)))
                e.snap = self._resnap(e)
        if args is not None:
            for label in args.changed():
                self.flag(name, "argument:" + label, None, "argument %s was altered" % label)
        self.count("pool-verified", len(self.pool))

    def _resnap(self, e):
        try:
            return snap(e.obj)
        except Exception:
            if e in self.pool:
                self.pool.remove(e)
            return e.snap

    # -- accumulators that exist only in a paired run ---------------------------------
    def define_extras(self, b, where):
        extras = self.tpls[b.tpl].get("extras")
        if not extras or self.twin.spec["where"] != where:
            return b
        obj = b.obj
        for ch in extras:
            obj = obj.define_accumulator_directly(ch["name"], self.chan_tree(b.tpl, ch, 5))
        return Entry(obj, snap(obj), b.tpl, b.seq)

    def cache_extras(self, c):
        if self.twin is None or not self.tpls[c.tpl].get("extras"):
            return c
        names = self.names(c)
        obj = c.obj
        if all(c.snap.upd.get(n) is not None for n in names):
            for n in sorted(set(c.snap.upd) - set(names)):
                if c.snap.upd[n] is None:
                    obj = obj.cache_update(n, self.update_tree(c, n, 5, {}))
        return c if obj is c.obj else Entry(obj, snap(obj), c.tpl, c.seq)

    # -- builder ----------------------------------------------------------------------
    def core_dtype(self, tpl=None):
        """The dtype of the per-lane statistics; half precision holds every dyadic number we use."""
        own = None if tpl is None or self.regime != "dyadic" else self.tpls[tpl].get("core")
        return own or ("float64" if boot.X64 else "float32")

    def op_newb(self, T, op):
        tpl = op["tpl"] % len(self.tpls)
        t = self.tpls[tpl]
        batch = list(t["batch"])
        shape = batch[0] if (len(batch) == 1 and op.get("int")) else batch
        eps, dep = op.get("eps", 0.125), op.get("dep", 1.0)
        given = jnp.asarray(dep, jnp.float32) if op.get("deparr") else dep     # a schedule hands over arrays
        dt = self.core_dtype(tpl)
        core_arg = None if op.get("default_core", 1) and dt == self.core_dtype() else core.DTYPES[dt]

        def expect():
            m = core.M()
            m.kind = "builder"
            m.eps, m.dep, m.mode = eps, dep, None
            z = np.zeros(tuple(batch))
            m.P, m.R, m.I = z, z, z
            m.dtypes = {"P": dt, "R": dt, "I": dt}
            m.acc, m.defs, m.upd = {}, {}, {}
            m.skip = m.classes = None
            return m
        if op.get("spare"):
            # the documented default of what is left out (this epsilon is no dyadic number: nothing is done with the builder)
            kw = [{}, {"epsilon": eps}, {"depression_constant": given}][op["spare"] % 3]

            def expect_plain():
                m = expect()
                m.eps, m.dep, m.dtypes = kw.get("epsilon", 1e-4), dep if "depression_constant" in kw else 1.0, dict.fromkeys("PRI", self.core_dtype())
                return m
            plain = self.call(T, dict(op, inj=None), "new_builder", lambda: Builder.new_builder(shape, **kw), expect_plain, tpl)
            if plain is not None:
                self.pool.remove(plain)
        e = self.call(T, op, "new_builder",
                      lambda: Builder.new_builder(shape, core_arg, epsilon=eps, depression_constant=given), expect, tpl)
        if e is not None:
            T.cur["builder"] = e

    def op_newbbad(self, T, op):
        t = self.tpls[op["tpl"] % len(self.tpls)]
        kw = [dict(epsilon=0.0), dict(epsilon=1.0), dict(epsilon=-0.25), dict(epsilon=1.5),
              dict(core_dtype=jnp.int32)][op.get("kind", 0) % 5]

        def expect():
            raise Reject(ValueError, why="new_builder(%s)" % ",".join("%s=%s" % kv for kv in kw.items()))
        self.call(T, op, "new_builder_bad", lambda: Builder.new_builder(list(t["batch"]), **kw), expect, 0)

    def chan(self, tpl, i):
        chans = self.tpls[tpl]["chans"]
        return chans[i % len(chans)]

    def chan_tree(self, tpl, ch, vs, as_np=False, dtype=None, poison=None, shape_edit=None):
        batch = list(self.tpls[tpl]["batch"])

        def leaf(trailing):
            shape = batch + list(trailing)
            if shape_edit is not None:
                shape = shape_edit(shape)
            return self.array(vs, shape, dtype or ch["dtype"], as_np, poison, ch["name"], len(batch))
        return spec_build(ch["tree"], leaf)

    def m_define(self, m, name, tree):
        out = m.copy()
        frozen = tree if isinstance(tree, core.Mtree) else core.mtree(Tree(tree))
        out.defs[name] = frozen
        out.acc[name] = frozen
        out.upd[name] = None
        return out

    def op_def(self, T, op):
        b = self.pick(T, op, "builder", "b")
        if b is None:
            return
        ch = self.chan(b.tpl, op["ch"])
        name = ch["name"]
        args = Args()
        if self.twin is not None and not b.snap.acc:
            b = self.define_extras(b, "first")
        if ch["how"] == "shape":
            batch = list(self.tpls[b.tpl]["batch"])
            shapes = args_shapes = spec_build(ch["tree"], lambda s: batch + list(s))
            fill = op.get("fill", 0.0)
            fill = float(fill) if isinstance(fill, str) else fill
            before = copy.deepcopy(shapes)

            def expect():
                built = spec_build(ch["tree"], lambda s: np.full(tuple(batch + list(s)), fill))
                leaves, treedef = core.tree_flatten(built)
                return self.m_define(lift(b.snap), name, core.Mtree(treedef, leaves, [ch["dtype"]] * len(leaves)))

            def check(value):
                if not _shapes_equal(before, args_shapes):
                    self.flag("define", "argument:shapes", None, "the shapes argument was altered")
            expect_redefine_warning = name in b.snap.defs
            def fn():
                if op.get("spare"):
                    kw = dict(dtype=core.DTYPES[ch["dtype"]], fill=fill)
                    if ch["dtype"] == "float32":
                        del kw["dtype"]
                    if isinstance(op.get("fill", 0.0), float) and fill == 0.0:
                        del kw["fill"]
                    return b.obj.define_accumulator_by_shape(name, shapes, **kw)
                if op.get("warn"):
                    # a caller who turns warnings into errors: redefinition then fails
                    with warnings.catch_warnings():
                        warnings.simplefilter("error", UserWarning)
                        return b.obj.define_accumulator_by_shape(name, shapes, dtype=core.DTYPES[ch["dtype"]],
                                                                 fill=fill)
                return b.obj.define_accumulator_by_shape(name, shapes, dtype=core.DTYPES[ch["dtype"]], fill=fill)
            if op.get("warn") and expect_redefine_warning and not self.threads:
                def expect():  # noqa: F811
                    raise Reject(UserWarning, why="redefinition under warnings-as-errors")
            elif op.get("warn"):
                op = dict(op, warn=0)
            e = self.call(T, op, "define", fn, expect, b.tpl, check=check)
        else:
            tree = args.add(self.chan_tree(b.tpl, ch, op.get("vs", 0), ch["how"] == "np"), "definition")
            e = self.call(T, op, "define", lambda: b.obj.define_accumulator_directly(name, tree),
                          lambda: self.m_define(lift(b.snap), name, tree), b.tpl, args)
        if e is not None:
            self.keep(T, op, e)

    def op_defbad(self, T, op):
        b = self.pick(T, op, "builder", "b")
        if b is None:
            return
        ch = self.chan(b.tpl, op["ch"])
        batch = list(self.tpls[b.tpl]["batch"])
        kind = op.get("kind", 0) % 12
        name = ch["name"] if op.get("existing", 1) else "fresh"
        if kind == 0:
            tree = {"x": jnp.zeros(tuple(batch) + (2,), jnp.float32), "y": jnp.zeros(tuple(batch) + (2,), jnp.int32)}
            fn, types, why = (lambda: b.obj.define_accumulator_directly(name, tree)), (TypeError,), "integer leaf"
        elif kind == 1:
            bad = [n + 1 for n in batch] if batch else None
            if bad is None:
                return
            tree = [jnp.zeros(tuple(batch) + (2,)), jnp.zeros(tuple(bad) + (2,))]
            fn, types, why = (lambda: b.obj.define_accumulator_directly(name, tree)), (ValueError,), "wrong batch shape"
        elif kind == 2:
            if not batch:
                return
            tree = jnp.zeros(tuple(batch[:-1]))
            fn, types, why = (lambda: b.obj.define_accumulator_directly(name, tree)), (ValueError,), "too few dims"
        elif kind in (3, 6, 7, 8):
            shapes = {3: {"x": batch + [2], "y": "nonsense"}, 6: {"x": batch + [2], "y": tuple(batch) + (2,)},
                      7: [batch + [2], batch + [2.0]], 8: {"x": 2}}[kind]
            fn, types, why = (lambda: b.obj.define_accumulator_by_shape(name, shapes)), (ValueError,), "corrupt shapes"
        elif kind >= 9:
            # one leaf among good ones, and itself of an unusual shape
            if not batch:
                return
            good = jnp.zeros(tuple(batch) + (2,))
            odd = [tuple(n * 2 + 1 for n in batch) + (0,), (0,) * len(batch) if 0 not in batch else (1,) * len(batch),
                   tuple(batch[1:]) + (0,) if len(batch) > 1 else (batch[0] + 1, 0)][kind - 9]
            if odd[:len(batch)] == tuple(batch):
                return
            odd = jnp.zeros(odd)
            tree = [[odd, good], {"p": good, "q": [odd]}, (good, (odd, good)), odd][op.get("at", 0) % 4]
            fn, types, why = (lambda: b.obj.define_accumulator_directly(name, tree)), (ValueError,), "wrong batch shape"
        elif kind == 4:
            bad = [n + 1 for n in batch] if batch else None
            if bad is None:
                return
            fn, types, why = (lambda: b.obj.define_accumulator_by_shape(name, [bad + [2]])), (ValueError,), \
                "wrong batch shape by shape"
        else:
            shapes = [batch + [2]]
            fn, types, why = (lambda: b.obj.define_accumulator_by_shape(name, shapes, dtype=jnp.int32)), (TypeError,), \
                "integer dtype by shape"

        def expect():
            raise Reject(*types, why=why)
        self.call(T, op, "define_bad", fn, expect, b.tpl)

    def op_build(self, T, op):
        b = self.pick(T, op, "builder", "b")
        if b is None:
            return
        if self.twin is not None and b.snap.acc:
            b = self.define_extras(b, "last")
        e = self.call(T, op, "build", lambda: b.obj.build(), lambda: lift(b.snap, "controller"), b.tpl)
        if e is not None:
            if e.kind != "controller":
                self.flag("build", "kind", None, "build returned a " + e.kind)
            self.keep(T, op, e)

    # -- controller -------------------------------------------------------------------
    def names(self, e):
        """the accumulators clients address, in the order of the template (twins rename them)"""
        chans = self.tpls[e.tpl]["chans"]
        known = [ch["name"] for ch in chans if ch["name"] in e.snap.acc and not ch.get("extra")]
        return known or sorted(e.snap.acc)

    def all_names(self, e):
        names = self.names(e)
        return names + sorted(set(e.snap.acc) - set(names))

    def chan_named(self, e, name):
        for ch in self.tpls[e.tpl]["chans"]:
            if ch["name"] == name:
                return ch
        return None

    def update_tree(self, e, name, vs, op):
        """An update shaped like the accumulator `name` of e."""
        batch = tuple(self.tpls[e.tpl]["batch"])
        base = e.snap.acc[name]
        if op.get("own"):
            # the accumulator itself while it is untouched, or the very arrays it was defined with
            if op["own"] == 2 and core.same_tree(base, e.snap.defs[name]):
                return e.snap.refs[3][name]
            return core.tree_unflatten(base.treedef, list(e.snap.defs[name].refs))
        leaves = []
        for n, l in enumerate(base.leaves):
            dt = op.get("udtype") or str(l.dtype)
            if dt == "float64" and not boot.X64:
                dt = "float32"
            if dt != str(l.dtype) and str(e.snap.P.dtype) == "float16" and str(l.dtype) in ("float32", "float64"):
                dt = str(l.dtype)       # half times half is rounded before it is added
            leaves.append(self.array(vs * 7 + n if vs else 0, l.shape, dt, bool(op.get("np")),
                                     op.get("poison"), name, len(batch)))
        return core.tree_unflatten(base.treedef, leaves)

    def op_cache(self, T, op):
        c = self.pick(T, op, "controller")
        if c is None or not c.snap.acc:
            return
        name = op.get("name")
        if name is None:
            names = self.names(c)
            name = names[op["ch"] % len(names)]
        args = Args()
        tree = args.add(self.update_tree(c, name, op.get("vs", 0), op), "update")
        frozen = Tree(tree)
        if op.get("mode") == "jit":
            fn = jitted(("cache", name), lambda: jax.jit(lambda c, u: c.cache_update(name, u)))
            run = lambda: fn(c.obj, tree)
        else:
            run = lambda: c.obj.cache_update(name, tree)
        e = self.call(T, op, "cache", run, lambda: core.m_cache(lift(c.snap), name, frozen), c.tpl, args)
        if e is not None:
            self.keep(T, op, e)

    def op_cachebad(self, T, op):
        c = self.pick(T, op, "controller")
        if c is None:
            return
        bad = "never-defined"

        def expect():
            raise Reject(ValueError, why="unknown accumulator")
        self.call(T, op, "cache", lambda: c.obj.cache_update(bad, jnp.zeros((1,))), expect, c.tpl)

    def op_cachewrong(self, T, op):
        """cache an update of the wrong shape or leaf count: rejected at the latest by iterate_act"""
        c = self.pick(T, op, "controller")
        if c is None or not c.snap.acc:
            return
        names = self.names(c)
        name = names[op["ch"] % len(names)]
        base = c.snap.acc[name]
        if not base.leaves:
            return
        kind = op.get("kind", 0) % 8
        leaves = [jnp.asarray(l) for l in base.leaves]
        at = op.get("at", 0) % len(leaves)
        shp = leaves[at].shape
        if kind == 0:
            leaves[-1] = jnp.zeros(leaves[-1].shape + (1,), leaves[-1].dtype)
            tree = core.tree_unflatten(base.treedef, leaves)
        elif kind == 1:
            tree = leaves + [leaves[0]]
        elif kind >= 3:
            other = [lambda: jnp.asarray(1.0, leaves[at].dtype), lambda: 1.0, lambda: jnp.zeros((1,) * len(shp), leaves[at].dtype),
                     lambda: jnp.zeros(shp[:-1], leaves[at].dtype), lambda: jnp.zeros(shp[::-1], leaves[at].dtype)][kind - 3]()
            if np.shape(other) == shp and kind != 4:
                return
            leaves[at] = other
            tree = core.tree_unflatten(base.treedef, leaves)
        else:
            shp = leaves[0].shape
            if not shp or shp[-1] == 1 or len(shp) <= c.snap.P.ndim:
                return
            leaves[0] = jnp.zeros(shp[:-1] + (1,), leaves[0].dtype)
            tree = core.tree_unflatten(base.treedef, leaves)
        obj, s = c.obj, c.snap
        # fill every other slot first so that only the wrong update is to blame
        try:
            for other in self.all_names(c):
                if s.upd[other] is None and other != name:
                    obj = obj.cache_update(other, self.update_tree(c, other, 1, {}))
            if s.upd[name] is not None:
                return
            obj = obj.cache_update(name, tree)
        except Exception:
            return          # rejected early: also fine
        h = self.h_array(c, op.get("h", [0.25]))

        def expect():
            raise Reject(RuntimeError, why="update of the wrong shape")
        self.call(T, op, "iterate", lambda: obj.iterate_act(h), expect, c.tpl)

    def h_array(self, c, spec, as_np=False):
        dt = str(c.snap.P.dtype)
        # "ulp" is the least by which a probability below one can exceed the threshold
        h = self.halting(spec, c.snap, {"float16": 2.0 ** -11, "float32": 2.0 ** -23, "float64": 2.0 ** -50}.get(dt, 2.0 ** -6))
        return np.asarray(h, dt) if as_np else jnp.asarray(h, core.DTYPES[dt])

    def op_iterate(self, T, op):
        c = self.pick(T, op, "controller")
        if c is None:
            return
        args = Args()
        h = args.add(self.h_array(c, op.get("h", [0.25]), bool(op.get("np"))), "halting_probabilities")
        h64 = f64(h)
        c = self.cache_extras(c)
        obj = c.obj
        if op.get("mode") == "jit":
            fn = jitted("iterate", lambda: jax.jit(lambda c, h: c.iterate_act(h)))
            run = lambda: fn(obj, h)
        else:
            run = lambda: obj.iterate_act(h)
        e = self.call(T, op, "iterate", run, lambda: core.m_iterate(lift(c.snap), h64, self.regime), c.tpl, args)
        if e is not None:
            self.after_iterate(c, e)
            self.keep(T, op, e)

    def after_iterate(self, c, e):
        """Conservation, independent of the halting rule: the change of every accumulator is
        (change of the cumulative probability) x (cached update), and 0 <= P <= 1."""
        P0, P1 = f64(c.snap.P), f64(e.snap.P)
        if P0.shape != P1.shape:
            return
        with np.errstate(invalid="ignore", over="ignore"):
            dP = P1 - P0
            fine = np.isfinite(P0) & np.isfinite(P1)
            if ((P1 > 1 + 1e-6) & fine & (P0 <= 1)).any():
                self.flag("iterate", "range", None, "cumulative probability above one: %s" % P1.max())
            if ((dP < -1e-6) & fine).any():
                self.flag("iterate", "range", None, "cumulative probability decreased")
            for name, a in c.snap.acc.items():
                u, b = c.snap.upd.get(name), e.snap.acc.get(name)
                if u is None or b is None or len(u.leaves) != len(a.leaves) or len(b.leaves) != len(a.leaves):
                    continue
                for x, v, y in zip(a.leaves, u.leaves, b.leaves):
                    if x.shape != y.shape or v.shape != x.shape:
                        continue
                    w = core.left(dP, x)
                    moved = core.left(dP != 0, x)
                    exp = np.where(moved, f64(x) + w * f64(v), f64(x))
                    ok = np.isfinite(exp) & np.isfinite(f64(v))
                    bad = core.bad_elements(exp, y, str(y.dtype), self.regime,
                                            np.abs(f64(x)) + 16 * np.abs(f64(v))) & ok
                    if self.regime != "dyadic":
                        bad &= np.abs(exp - f64(y)) > 1e-4
                    if bad.any():
                        i = tuple(np.argwhere(bad)[0])
                        self.flag("iterate", "cons:" + name, None,
                                  "element %s moved from %r to %r, but weight %r x update %r" % (
                                      list(map(int, i)), float(f64(x)[i]), float(f64(y)[i]), float(w[i]),
                                      float(f64(v)[i])))
        self.count("conserved")

    def op_iterbad(self, T, op):
        c = self.pick(T, op, "controller")
        if c is None:
            return
        shape = c.snap.P.shape
        shape = [tuple(shape) + (1,), (7,) + tuple(shape), tuple(n + 1 for n in shape) or (2,)][op.get("kind", 0) % 3]
        h = jnp.full(shape, 0.25, c.snap.P.dtype)

        def expect():
            raise Reject(ValueError, why="halting probabilities of the wrong shape")
        self.call(T, op, "iterate", lambda: c.obj.iterate_act(h), expect, c.tpl)

    def op_step(self, T, op):
        """One full cycle: cache every empty slot (in the trace's order), then iterate."""
        c = self.pick(T, op, "controller")
        if c is None or not c.snap.acc:
            return
        names = self.all_names(c)
        order = op.get("order", [])
        rest = self.names(c)
        seq = []
        for o in order:
            if rest:
                seq.append(rest.pop(o % len(rest)))
        seq += rest
        if self.twin is None or op.get("mode") == "jit":
            seq += [n for n in names if n not in seq]
        if op.get("mode") == "jit":
            return self.jit_step(T, op, c, seq)
        inj_at = op.get("inj_sub", 0)
        prev = T.cur.get("controller")
        T.cur["controller"] = c
        n = 0
        for name in seq:
            if T.cur["controller"].snap.upd.get(name) is not None:
                continue
            sub = {"op": "cache", "name": name, "vs": op.get("vs", 0) + (0 if op.get("alias") else names.index(name)) if op.get("vs") else 0,
                   "np": op.get("np", 0), "udtype": op.get("udtype"), "mode": op.get("mode", "eager"), "own": op.get("own"),
                   "poison": op.get("poison")}
            if op.get("inj") and n == inj_at:
                sub["inj"] = op["inj"]
            n += 1
            before = T.cur["controller"]
            self.op_cache(T, sub)
            if T.cur["controller"] is before:
                break
        sub = {"op": "iterate", "h": op.get("h", [0.25]), "np": op.get("np", 0), "mode": op.get("mode", "eager")}
        if op.get("inj") and n <= inj_at:
            sub["inj"] = op["inj"]
        self.op_iterate(T, sub)
        if not op.get("keep", 1) and prev is not None:
            T.cur["controller"] = prev

    def jit_step(self, T, op, c, seq):
        todo = tuple(n for n in seq if c.snap.upd.get(n) is None)
        names = self.all_names(c)
        trees = [self.update_tree(c, n, op.get("vs", 0) + (0 if op.get("alias") else names.index(n)) if op.get("vs") else 0, op)
                 for n in todo]
        h = self.h_array(c, op.get("h", [0.25]))

        def make():
            def prog(c, us, h):
                for n, u in zip(todo, us):
                    c = c.cache_update(n, u)
                return c.iterate_act(h)
            return jax.jit(prog)
        fn = jitted(("step", todo), make)

        def expect():
            m = lift(c.snap)
            for n, u in zip(todo, trees):
                m = core.m_cache(m, n, Tree(u))
            return core.m_iterate(m, f64(h), self.regime)
        e = self.call(T, op, "iterate", lambda: fn(c.obj, trees, h), expect, c.tpl)
        if e is not None:
            self.keep(T, op, e)

    def op_reset(self, T, op):
        c = self.pick(T, op, "controller")
        if c is None:
            return
        obj, lost, s = c.obj, op.get("lost"), c.snap
        if lost:
            # whatever a statistic of a halted lane had become, it starts anew
            with np.errstate(invalid="ignore"):
                stop = f64(s.P) > 1 - s.eps
            f, v = [("residuals", np.nan), ("residuals", np.inf), ("iterations", np.nan), ("iterations", np.inf), ("probabilities", np.inf),
                    ("residuals", -np.inf)][lost % 6]
            old = np.asarray(getattr(c.obj.state, f))
            obj = Controller.load(c.obj.save().replace(**{f: jnp.asarray(np.where(stop, np.asarray(v, old.dtype), old))}))
        if op.get("mode") == "jit":
            fn = jitted("reset", lambda: jax.jit(lambda c: c.reset_batches()))
            run = lambda: fn(obj)
        elif lost and lost % 3 == 0:
            def run():
                with jax.disable_jit():
                    return obj.reset_batches()
        else:
            run = lambda: obj.reset_batches()
        e = self.call(T, op, "reset", run, lambda: core.m_reset(lift(s)), c.tpl)
        if e is not None:
            self.keep(T, op, e)

    def op_flags(self, T, op):
        kind = op.get("kind", "controller")
        c = self.pick(T, op, kind)
        if c is None:
            return
        s = c.snap
        P = f64(s.P)
        thr = 1 - s.eps
        with np.errstate(invalid="ignore"):
            stop = P > thr
        near = (np.abs(P - thr) < 1e-6) if self.regime != "dyadic" else np.zeros(P.shape, bool)

        def fn():
            o = c.obj
            out = {"thr": o.halt_threshold, "halted": o.halted_batches}
            if kind == "controller":
                out["all"] = o.is_completely_halted
                out["any"] = o.is_any_halted
                out["ready"] = o.updates_ready_to_commit
                out["cached"] = o.has_cached_updates
                out["dep"] = o.depression_constant
            return out

        def check(v):
            if abs(float(v["thr"]) - thr) > 1e-6:
                self.flag("flags", "threshold", None, "halt_threshold %r, expected %r" % (float(v["thr"]), thr))
            got = np.asarray(v["halted"])
            if got.shape != stop.shape or ((got != stop) & ~near).any():
                self.flag("flags", "halted", None, "halted_batches %s, expected %s" % (got.tolist(), stop.tolist()))
            if kind == "controller":
                if not near.any():
                    if bool(v["all"]) != bool(stop.all()):
                        self.flag("flags", "all", None, "is_completely_halted is %s" % bool(v["all"]))
                    if bool(v["any"]) != bool(stop.any()):
                        self.flag("flags", "any", None, "is_any_halted is %s" % bool(v["any"]))
                filled = [u is not None for u in s.upd.values()]
                if bool(v["ready"]) != all(filled):
                    self.flag("flags", "ready", None, "updates_ready_to_commit is %s with %s" % (v["ready"], filled))
                if bool(v["cached"]) != any(filled):
                    self.flag("flags", "cached", None, "has_cached_updates is %s with %s" % (v["cached"], filled))
                if abs(float(v["dep"]) - s.dep) > self.tol:
                    self.flag("flags", "dep", None, "depression_constant %r" % float(v["dep"]))
        self.call(T, op, "flags", fn, lambda: None, c.tpl, check=check, wrap=False)

    def op_getitem(self, T, op):
        c = self.pick(T, op, "controller")
        if c is None or not c.snap.acc:
            return
        names = self.names(c)
        name = names[op.get("ch", 0) % len(names)]

        def check(v):
            if not core.same_tree(Tree(v), c.snap.acc[name]):
                self.flag("getitem", "acc:" + name, None, "controller[%r] is not the accumulator" % name)
        self.call(T, op, "getitem", lambda: c.obj[name], lambda: None, c.tpl, check=check, wrap=False)

    def op_setattr(self, T, op):
        kind = ["controller", "builder", "viewer", "editor"][op.get("kind", 0) % 4]
        c = self.pick(T, op, kind)
        if c is None:
            return
        attr = ["state", "probabilities", "state", "epsilon", "note", "accumulators", "_state", "_cache", "__doc__", "save",
                "error_mode", "halt_threshold"][op.get("attr", 0) % 12]

        def fn():
            setattr(c.obj, attr, None)

        def expect():
            raise Reject(AttributeError, why="assigning to an attribute of a %s" % kind)
        self.call(T, op, "setattr", fn, expect, c.tpl, wrap=False)

    # -- viewer -----------------------------------------------------------------------
    def op_view(self, T, op):
        c = self.pick(T, op, "controller")
        if c is None:
            return
        e = self.call(T, op, "view", lambda: c.obj.make_viewer(), lambda: lift(c.snap, "viewer"), c.tpl)
        if e is not None:
            self.keep(T, op, e)

    def op_mask(self, T, op):
        v = self.pick(T, op, "viewer", "v")
        if v is None:
            c = self.pick(T, op, "controller")
            if c is None:
                return
            self.op_view(T, {"op": "view", "c": op.get("c", 0)})
            v = self.pick(T, op, "viewer", "v")
            if v is None:
                return
        s = v.snap
        how = op.get("how", "mask")
        stop = core.halted(lift(s))
        if how == "mask":
            bits = op.get("bits", 5)
            mask = np.array([(bits >> (i % 16)) & 1 for i in range(s.P.size)], bool).reshape(s.P.shape)
            if self.twin is not None:
                mask = self.twin.mask(mask)
            arg = jnp.asarray(mask)
            run = lambda o: o.mask_data(arg)
        elif how == "halted":
            mask = stop
            run = lambda o: o.halted_only()
        else:
            mask = ~stop
            run = lambda o: o.unhalted_only()
        if op.get("mode") == "jit":
            if how == "mask":
                jf = jitted("mask", lambda: jax.jit(lambda o, m: o.mask_data(m)))
                fn = lambda: jf(v.obj, arg)
            else:
                jf = jitted("mask" + how, lambda: jax.jit((lambda o: o.halted_only()) if how == "halted"
                                                          else (lambda o: o.unhalted_only())))
                fn = lambda: jf(v.obj)
        else:
            fn = lambda: run(v.obj)
        if self.regime != "dyadic" and how != "mask" and self.twin is None:
            P = f64(s.P)
            if (np.abs(P - (1 - s.eps)) < 1e-6).any():
                return
        e = self.call(T, op, "mask", fn, lambda: core.m_mask(lift(s), mask), v.tpl)
        if e is not None:
            if e.kind != "viewer":
                self.flag("mask", "kind", None, "masking returned a " + e.kind)
            if op.get("keep", 0):
                T.cur["viewer"] = e

    def op_maskbad(self, T, op):
        v = self.pick(T, op, "viewer", "v")
        if v is None:
            return
        shape = v.snap.P.shape
        kind = op.get("kind", 0) % 8
        if kind % 2 == 0:
            arg, why = jnp.ones(shape, [jnp.float32, jnp.int32, jnp.uint8, jnp.float16][kind // 2]), "mask that is not boolean"
        else:
            bad = [shape + (2,), shape + (1,), tuple(1 for _ in shape), shape[1:]][kind // 2]
            if bad == shape:
                bad = shape + (1,)
            arg, why = jnp.ones(bad, bool), "mask of the wrong shape"

        def expect():
            raise Reject(ValueError, why=why)
        self.call(T, op, "mask", lambda: v.obj.mask_data(arg), expect, v.tpl)

    def op_xform(self, T, op):
        v = self.pick(T, op, "viewer", "v")
        if v is None:
            return
        kind = op.get("fn", 0) % 5
        if kind == 4:
            calls = [0]
            limit = op.get("at", 0)
            failure = points.EXC[op.get("exc", "OSError")]

            def real(x):
                calls[0] += 1
                if calls[0] > limit:
                    raise failure("callback failed")
                return x * 2
            total = 3 + sum(len(t.leaves) for g in (v.snap.acc, v.snap.defs, v.snap.upd) for t in g.values()
                            if t is not None)

            def expect():
                if limit < total:
                    self.count("fault:callback")
                    raise Reject(Failure(failure, RuntimeError), why="transform callback failed")
                return core.m_transform(lift(v.snap), lambda x: x * 2)

            def fn():
                calls[0] = 0
                return v.obj.transform(real)
        else:
            real, model = [(lambda x: x * 2, lambda x: x * 2), (lambda x: x + 1, lambda x: x + 1.0),
                           (lambda x: -x, lambda x: -x), (lambda x: x[..., None], lambda x: x[..., None])][kind]
            fn = lambda: v.obj.transform(real)
            expect = lambda: core.m_transform(lift(v.snap), model)
        e = self.call(T, op, "transform", fn, expect, v.tpl)
        if e is not None and op.get("keep", 0) and kind != 3:
            T.cur["viewer"] = e
        elif e is not None and kind == 3:
            self.pool.remove(e)     # its batch shape no longer matches the template

    # -- editor -----------------------------------------------------------------------
    def op_edit(self, T, op):
        c = self.pick(T, op, "controller")
        if c is None:
            return
        mode = "silence" if op.get("silent") else "standard"
        if op.get("kind", 0) % 4 == 3:
            def expect():
                raise Reject(ValueError, why="unknown error mode")
            bad = ["no-such-mode", None, "Standard", ""][op.get("badmode", 0) % 4]
            if op.get("badmode", 0) // 4 % 2:
                run = lambda: TensorEditor.edit_save(c.obj.save(), bad)
            else:
                run = lambda: TensorEditor.edit_controller(c.obj, bad)
            self.call(T, op, "edit", run, expect, c.tpl)
            return
        default = op.get("kind", 0) % 4 == 2 and not op.get("silent")
        if op.get("kind", 0) % 2:
            fn = lambda: TensorEditor.edit_save(c.obj.save(), mode)
        elif default:
            fn = lambda: TensorEditor.edit_controller(c.obj)
        else:
            fn = lambda: TensorEditor.edit_controller(c.obj, mode)

        def expect():
            m = lift(c.snap, "editor")
            m.mode = mode
            return m
        e = self.call(T, op, "edit", fn, expect, c.tpl)
        if e is not None:
            self.keep(T, op, e)

    def op_set(self, T, op):
        E = self.pick(T, op, "editor", "e")
        if E is None:
            return
        s = E.snap
        fields = ["P", "R", "I", "eps", "acc", "defs", "upd", "updnone"]
        f = fields[op.get("field", 0) % 8]
        bad = op.get("bad", 0)
        silent = s.mode == "silence"
        dt = str(s.P.dtype)
        batch = tuple(self.tpls[E.tpl]["batch"])
        vs = op.get("vs", 0)
        names = self.names(E)
        why = None
        args = Args()
        content_only = False        # a violation only of values, which 'silence' must let pass
        if f in ("P", "R", "I"):
            n = s.P.size
            raw = core.raw_values(vs, s.P.shape, "dyadic")
            if f == "I":
                v = np.abs(np.round(raw * 4))
                if op.get("big"):       # about to leave the range of some narrower counter
                    v = v + min(op["big"], 1023 if dt == "float16" else 1 << 20)
            else:
                v = (np.round(raw * 4) + 16) / 32.0
                if op.get("high") and f == "P" and v.size:
                    # just above the threshold, yet short of one
                    v = np.where(v > 0.5, 1 - s.eps / 2, v)
            if op.get("bound"):
                # values on the very boundary are fine
                v = np.where(v > np.median(v) if v.size else v > 0, 0.0 if f == "I" or op["bound"] == 2 else 1.0, v)
            if self.twin is not None:
                v = self.twin.stat(v, s)
            tdt = dt = str(getattr(s, f).dtype)
            given = None
            if bad and v.size:
                k, more = bad % 4, bad // 4
                here = np.arange(n).reshape(v.shape) == vs % n
                if k == 0:
                    v, why = np.where(here, [-0.25, -(2.0 ** -10), -np.inf][more % 3], v), "a value below zero"
                    content_only = True
                elif k == 1 and f != "I":
                    v, why = np.where(here, [1.25, 1 + 2.0 ** -10, np.inf][more % 3], v), "a value above one"
                    content_only = True
                elif k == 2:
                    shape = [s.P.shape + (2,), s.P.shape + (1,), (1,) + s.P.shape, tuple(x + 1 for x in s.P.shape),
                             s.P.shape[:-1]][more % 5]
                    if shape == s.P.shape:
                        shape += (1,)
                    v, why = np.zeros(shape), "another shape"
                else:
                    tdt = [x for x in ("float16", "bfloat16", "int32", "float32") if x != dt][more % 3]
                    why = "another dtype"
                    if more >= 10:
                        given, why = [v.tolist(), 0.5, [0.5], None][more % 4], "no array"
            value = args.add(jnp.asarray(v, core.DTYPES[tdt]), "value")
            setter = {"P": "set_probabilities", "R": "set_residuals", "I": "set_iterations"}[f]
            if why == "no array":
                value = given
            fn = lambda: getattr(E.obj, setter)(value)

            def model():
                m = lift(s)
                setattr(m, f, f64(value))
                return m
        elif f == "eps":
            if bad:
                value = [-0.25, 1.5, -2.0 ** -10, 1.0 + 2.0 ** -10, float("inf"), float("-inf"), None, "0.25"][bad % 8]
                why, content_only = "epsilon outside [0, 1]", bad % 8 < 6
            else:
                value = [0.125, 0.25, 0.5, 2.0 ** -6, 2.0 ** -10, 0.0, 1.0][vs % 7]
            fn = lambda: E.obj.set_epsilon(value)

            def model():
                m = lift(s)
                m.eps = value
                return m
        else:
            if not names:
                return
            name = names[op.get("ch", 0) % len(names)]
            base = s.acc[name]
            if f == "updnone":
                value = None
            else:
                value = self.update_tree(E, name, vs, {"np": op.get("np", 0)})
            if bad and f != "updnone":
                k, more = bad % 4, bad // 4
                leaves, td = core.tree_flatten(value)
                at = more % len(leaves) if leaves else 0
                if k == 0:
                    name, why = "never-defined", "unknown accumulator"
                elif k == 1:
                    # the same leaves in another arrangement, or other leaves
                    options = [list(leaves), tuple(leaves), {"k%d" % i: l for i, l in enumerate(leaves)}, [value],
                               {"zz": value, "yy": value}]
                    options = [o for o in options if jax.tree_util.tree_structure(o) != td]
                    value, why = options[more % len(options)], "another structure"
                elif k == 2 and leaves:
                    shp = tuple(leaves[at].shape)
                    shape = [shp + (2,), shp + (1,), (1,) + shp, tuple(x + 1 for x in shp), shp[:-1]][more // 3 % 5]
                    if shape == shp:
                        shape += (1,)
                    leaves[at] = jnp.zeros(shape, leaves[at].dtype)
                    value, why = core.tree_unflatten(td, leaves), "another leaf shape"
                elif leaves:
                    other = [x for x in ("float16", "bfloat16", "int32", "float32")
                             if x != str(leaves[at].dtype)][more // 3 % 3]
                    leaves[at] = jnp.zeros(leaves[at].shape, core.DTYPES[other])
                    value, why = core.tree_unflatten(td, leaves), "another leaf dtype"
                if k == 3 and leaves and more % 4 == 3:
                    leaves[at] = 0.5
                    value, why = core.tree_unflatten(td, leaves), "a leaf which is no array"
                if op.get("none") and f in ("acc", "defs") and leaves:
                    name = names[op.get("ch", 0) % len(names)]
                    value, why = core.tree_unflatten(td, [None] * len(leaves)), "None in place of tensors"
            elif bad:
                name, why = "never-defined", "unknown accumulator"
            args.add(value, "value")
            setter = {"acc": "set_accumulator", "defs": "set_defaults"}.get(f, "set_updates")
            fn = lambda: getattr(E.obj, setter)(name, value)

            def model():
                m = lift(s)
                field = "upd" if f == "updnone" else f
                getattr(m, field)[name] = core.mtree(Tree(value)) if value is not None else None
                return m
        if why and silent and not content_only:
            return
        if why and not silent:
            def expect():
                raise Reject(Exception, why="%s: %s" % (f, why))
        else:
            expect = model
        if op.get("mode") == "jit" and f in ("P", "R", "I") and not silent and self.twin is None and \
                not (why and not content_only):
            jf = jitted(("set", f), lambda: act_utils.jit_and_checkify(
                lambda e, v: getattr(e, {"P": "set_probabilities", "R": "set_residuals", "I": "set_iterations"}[f])(v)))
            fn = lambda: jf(E.obj, value)
        elif op.get("mode") == "jit":
            op = dict(op, mode="eager")
        e = self.call(T, op, "set", fn, expect, E.tpl, args)
        if e is not None:
            odd = (why is not None) or (f == "eps" and (value <= 0 or value >= 1))
            if e.kind != "editor":
                self.flag("set", "kind", None, "the setter returned a " + e.kind)
            if odd:
                self.pool.remove(e)
            else:
                self.keep(T, op, e)

    def op_srep(self, T, op):
        """Replace fields of a saved state, then carry on from it."""
        c = self.pick(T, op, "controller")
        if c is None:
            return
        s, vs = c.snap, op.get("vs", 0)
        batch = tuple(self.tpls[c.tpl]["batch"])
        dt = core.DTYPES[str(s.P.dtype)]
        names = self.names(c)
        fields = [["dep"], ["P"], ["R"], ["I"], ["eps"], ["acc"], ["defs"], ["upd"], ["dep", "P"], ["P", "R", "I"],
                  ["acc", "defs"], ["eps", "dep"], ["mode"], [], ["I2"]][op.get("fields", 0) % 15]
        m = lift(s, "controller")
        kw = {}
        args = Args()
        for f in fields:
            if f in ("P", "R", "I"):
                v = np.round(core.raw_values(vs, s.P.shape, "dyadic") * 4)
                # (a counter may hold fractions: it is of floating dtype for the sake of interpolation)
                v = np.abs(v) / (1 + vs % 2) if f == "I" else (v + 16) / 32.0
                if self.twin is not None:
                    v = self.twin.stat(v, s)
                kw[{"P": "probabilities", "R": "residuals", "I": "iterations"}[f]] = args.add(jnp.asarray(v, core.DTYPES[m.dtypes[f]]), f)
                setattr(m, f, f64(v))
            elif f == "I2":
                # the counter is used with nothing else, so it may be of another floating dtype
                own = [x for x in ("float32", "float16", "float64") if x != str(s.I.dtype) and (boot.X64 or x != "float64")][vs % 2 - 1]
                kw["iterations"] = args.add(jnp.asarray(s.I, core.DTYPES[own]), "I")
                m.dtypes = dict(m.dtypes, I=own)
            elif f == "eps":
                m.eps = kw["epsilon"] = EPS_CHOICES[vs % len(EPS_CHOICES)]
            elif f == "dep":
                m.dep = kw["depression_constant"] = [0.5, 0.25, 1.0, 0.75, 2.0, 0.0][vs % 6]
            elif f == "mode":
                kw["error_mode"] = m.smode = ["silence", "standard", "checkify", "anything"][vs % 4]
            elif names:
                name = names[op.get("ch", 0) % len(names)]
                value = None if f == "upd" and vs % 3 == 0 else self.update_tree(c, name, vs, {})
                group = dict({"acc": c.obj.save().accumulators, "defs": c.obj.save().defaults,
                              "upd": c.obj.save().updates}[f])
                group[name] = value
                kw[{"acc": "accumulators", "defs": "defaults", "upd": "updates"}[f]] = args.add(group, f)
                getattr(m, f)[name] = core.mtree(Tree(value)) if value is not None else None
        m.classes = None
        got = {}

        def fn():
            got["state"] = st = c.obj.save().replace(**kw)
            return Controller.load(st)

        def check(v):
            want = kw.get("error_mode", getattr(c.obj.state, "error_mode", None))
            if getattr(got["state"], "error_mode", None) != want:
                self.flag("srep", "mode", None, "the error mode of the state is %r, not %r" % (
                    getattr(got["state"], "error_mode", None), want))
        e = self.call(T, op, "srep", fn, lambda: m, c.tpl, args, check=check)
        if e is not None:
            self.keep(T, op, e)

    def op_ebuild(self, T, op):
        E = self.pick(T, op, "editor", "e")
        if E is None:
            return
        e = self.call(T, op, "ebuild", lambda: E.obj.build(), lambda: lift(E.snap, "controller"), E.tpl)
        if e is not None:
            if e.kind != "controller":
                self.flag("ebuild", "kind", None, "build returned a " + e.kind)
            self.keep(T, op, e)

    # -- durability -------------------------------------------------------------------
    RT = ["tree", "leaves", "save", "pickle", "jit", "map", "put", "none", "deepcopy", "move", "shard", "paths"]

    def freeze_bytes(self, obj, how):
        """Only plain bytes survive a crash."""
        if how == "pickle":
            return ("pickle", pickle.dumps(obj))
        leaves, treedef = jax.tree_util.tree_flatten(obj)
        return ("leaves", [(np.asarray(l).dtype, np.asarray(l).shape, np.asarray(l).tobytes(),
                            isinstance(l, (int, float))) for l in leaves], treedef)

    def thaw(self, frozen):
        if frozen[0] == "pickle":
            return pickle.loads(frozen[1])
        leaves = []
        for dt, shape, data, scalar in frozen[1]:
            a = np.frombuffer(data, dt).reshape(shape)
            leaves.append(float(a) if scalar else jnp.asarray(a))
        return jax.tree_util.tree_unflatten(frozen[2], leaves)

    def roundtrip(self, obj, how):
        if how == "none":
            return obj
        if how == "tree":
            leaves, td = jax.tree_util.tree_flatten(obj)
            return jax.tree_util.tree_unflatten(td, leaves)
        if how == "paths":
            # as checkpoint formats do it that file every array under its path
            named = jax.tree_util.tree_flatten_with_path(obj)[0]
            files = {jax.tree_util.keystr(path): leaf for path, leaf in named}
            if len(files) != len(named):
                raise ValueError("two leaves share a path: %s" % sorted(jax.tree_util.keystr(path) for path, _ in named))
            return jax.tree_util.tree_map_with_path(lambda path, _: files[jax.tree_util.keystr(path)], obj)
        if how in ("leaves", "pickle"):
            return self.thaw(self.freeze_bytes(obj, how))
        if how == "save":
            if hasattr(obj, "save") and hasattr(type(obj), "load"):
                return type(obj).load(obj.save())
            if isinstance(obj, TensorEditor):
                return TensorEditor.edit_save(obj.save(), obj.error_mode)
            leaves, td = jax.tree_util.tree_flatten(obj)
            return jax.tree_util.tree_unflatten(td, leaves)
        if how == "jit":
            return jitted("identity", lambda: jax.jit(lambda x: x))(obj)
        if how == "map":
            return jax.tree_util.tree_map(lambda x: x, obj)
        if how == "put":
            return jax.device_put(obj)
        if how == "deepcopy":
            return copy.deepcopy(obj)
        if how == "opaque":
            # what transformations do with a tree: placeholders of no particular type in between
            blank = jax.tree_util.tree_map(lambda x: Opaque(), obj)
            return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(blank), jax.tree_util.tree_leaves(obj))
        if how == "abstract":
            shapes = jax.eval_shape(lambda x: x, obj)
            return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(shapes), jax.tree_util.tree_leaves(obj))
        if how == "move":
            return jax.device_put(obj, jax.devices()[1])
        if how == "shard":
            return jax.tree_util.tree_map(self.sharded, obj)
        raise KeyError(how)

    def sharded(self, leaf):
        """Lanes spread over two simulated devices, where they divide."""
        mesh = jax.sharding.Mesh(np.array(jax.devices()[:2]), ("lanes",))
        shape = np.shape(leaf)
        spec = ("lanes",) if shape and shape[0] and shape[0] % 2 == 0 else ()
        return jax.device_put(leaf, jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec(*spec)))

    def op_rt(self, T, op):
        kind = ["controller", "builder", "viewer", "editor", "state"][op.get("kind", 0) % 5]
        how = op.get("how", "tree")
        src = self.pick(T, op, "controller" if kind == "state" else kind)
        if src is None:
            return
        if kind == "state":
            obj = src.obj.save()
            s = snap(obj)
        else:
            obj, s = src.obj, src.snap
        if how == "jit":
            op = dict(op, mode="jit")

        def expect():
            m = lift(s)
            return m
        self.tol_rt = 2e-7 if how in ("jit", "put", "leaves", "move", "shard") else 0.0
        e = self.call_rt(T, op, lambda: self.roundtrip(obj, how), expect, src.tpl, s)
        if e is not None:
            self.count("restore:" + how)
            if kind == "state":
                self.pool.remove(e)
                if isinstance(e.obj, core.ACTStates):
                    self.op_load(T, op, e, src)
            else:
                self.keep(T, op, e)

    def op_load(self, T, op, e, src):
        r = self.call(T, {"op": "rt"}, "restore", lambda: Controller.load(e.obj),
                      lambda: lift(e.snap, "controller"), src.tpl)
        if r is not None:
            self.keep(T, op, r)

    def call_rt(self, T, op, fn, expect, tpl, s):
        saved, self.tol = self.tol, max(self.tol, self.tol_rt)
        try:
            e = self.call(T, op, "restore", fn, expect, tpl)
        finally:
            self.tol = saved
        if e is not None:
            if e.kind != s.kind:
                self.flag("restore", "kind", None, "a %s came back as a %s" % (s.kind, e.kind))
            for f in diff_snaps(s, e.snap, ignore=("eps", "dep")):
                self.flag("restore", "bits:" + f, None, "%s did not survive the round trip bit for bit" % f)
        return e

    def op_ckpt(self, T, op):
        c = self.pick(T, op, "controller")
        if c is None:
            return
        self.ckpt = (self.freeze_bytes(c.obj, op.get("how", "leaves")), c.snap, c.tpl)
        self.count("checkpoints")

    def op_crash(self, T, op):
        """Process death: only the checkpoint survives. The module state starts afresh."""
        if self.threads:
            return
        c = self.pick(T, op, "controller")
        if c is None:
            return
        if op.get("how") == "none":
            frozen, s, tpl, keepobj = None, c.snap, c.tpl, c.obj
            if self.ckpt is not None and not op.get("fresh"):
                s, tpl = self.ckpt[1], self.ckpt[2]
                keepobj = self.ckpt_obj()
        else:
            if self.ckpt is None or op.get("fresh"):
                self.ckpt = (self.freeze_bytes(c.obj, op.get("how", "leaves")), c.snap, c.tpl)
            frozen, s, tpl = self.ckpt
        self.pool.clear()
        T.cur.clear()
        boot.wipe_process_memory()
        gc.collect()
        self.count("fault:crash")
        self.tol_rt = 2e-7
        e = self.call_rt(T, {"op": "crash"}, (lambda: self.thaw(frozen)) if frozen is not None else (lambda: keepobj),
                         lambda: lift(s), tpl, s)
        if e is not None:
            T.cur[e.kind] = e

    def ckpt_obj(self):
        return self.thaw(self.ckpt[0])

    def op_gc(self, T, op):
        gc.collect()
        self.count("gc")

    # -- compiled programs ------------------------------------------------------------
    def op_prog(self, T, op):
        """Several cycles as one program: eager, jitted, scanned, in a while loop or vmapped."""
        c = self.pick(T, op, "controller")
        if c is None or not c.snap.acc or any(u is not None for u in c.snap.upd.values()):
            return
        names = self.all_names(c)
        how = op.get("how", "jit")
        n = PROG_LEN.get(op.get("len", how), 2)
        if op.get("how") == "eager":
            n = PROG_LEN.get(op.get("len", "jit"), 2)
        kind = op.get("len", how)
        go = [bool(op.get("go", 7) >> t & 1) for t in range(n)]
        do_reset = bool(op.get("reset"))
        hspecs = op.get("hs") or [[0.25]]
        # resolved up front against the model so that edges remain edges
        m = lift(c.snap)
        hs, us, models = [], [], [m]
        base = c.snap
        for t in range(n):
            fake = Snap()
            cur = models[-1]
            fake.P, fake.eps, fake.dep = cur.P, cur.eps, cur.dep
            h = self.halting(hspecs[t % len(hspecs)], fake)
            h = np.where(np.isfinite(h), h, 0.25)
            trees = {nm: self.update_tree(c, nm, (op.get("vs", 0) + 13 * t + i) if op.get("vs") else 0, {})
                     for i, nm in enumerate(names)}
            if kind in ("vmap", "vmap2", "pmap"):
                cur = models[0]
            mm = cur
            for _ in range(2 if kind == "vmap2" else int(go[t]) if kind == "cond" else 1):
                for nm in names:
                    mm = core.m_cache(mm, nm, Tree(trees[nm]))
                mm = core.m_iterate(mm, h.astype(str(base.P.dtype)).astype(np.float64), self.regime)
                if do_reset:
                    mm = core.m_reset(mm)
                if mm.skip is not None and mm.skip.any() and self.twin is None:
                    return
            if mm.skip is not None and mm.skip.any() and self.twin is None:
                return
            models.append(mm)
            hs.append(h)
            us.append(trees)
        dt = core.DTYPES[str(base.P.dtype)]
        H = jnp.asarray(np.stack(hs), dt)
        U = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *us)

        def one(c, h, u):
            for nm in names:
                c = c.cache_update(nm, u[nm])
            c = c.iterate_act(h)
            return c.reset_batches() if do_reset else c
        key = ("prog", how, n, tuple(names), do_reset)
        if how == "eager":
            def run():
                x = c.obj
                for t in range(n):
                    u = {nm: us[t][nm] for nm in names}
                    if kind in ("vmap", "vmap2", "pmap"):
                        x = c.obj
                    for _ in range(2 if kind == "vmap2" else int(go[t]) if kind == "cond" else 1):
                        x = one(x, H[t], u)
                return x
            final = models[-1]
        elif how == "jit" or how == "long":
            if how == "long":
                def make():
                    return jax.jit(lambda c, H, U: jax.lax.scan(lambda c, x: (one(c, x[0], x[1]), 0), c, (H, U))[0])
            else:
                def make():
                    def prog(c, H, U):
                        for t in range(n):
                            c = one(c, H[t], jax.tree_util.tree_map(lambda x: x[t], U))
                        return c
                    return jax.jit(prog)
            fn = jitted(key, make)
            run = lambda: fn(c.obj, H, U)
            final = models[-1]
        elif how == "scan":
            def make():
                return jax.jit(lambda c, H, U: jax.lax.scan(lambda c, x: (one(c, x[0], x[1]), 0), c, (H, U))[0])
            fn = jitted(key, make)
            run = lambda: fn(c.obj, H, U)
            final = models[-1]
        elif how == "while":
            def make():
                def prog(c, H, U):
                    def body(carry):
                        t, c = carry
                        return t + 1, one(c, H[t], jax.tree_util.tree_map(lambda x: x[t], U))
                    return jax.lax.while_loop(
                        lambda carry: jnp.logical_and(carry[0] < n, ~carry[1].is_completely_halted), body, (0, c))[1]
                return jax.jit(prog)
            fn = jitted(key, make)
            run = lambda: fn(c.obj, H, U)
            k = 0
            while k < n and not bool(core.halted(models[k]).all()):
                k += 1
            final = models[k]
        elif how == "cond":
            def make():
                def prog(c, H, U, G):
                    for t in range(n):
                        u = jax.tree_util.tree_map(lambda x: x[t], U)
                        c = jax.lax.cond(G[t], lambda c: one(c, H[t], u), lambda c: c, c)
                    return c
                return jax.jit(prog)
            fn = jitted(key, make)
            run = lambda: fn(c.obj, H, U, jnp.asarray(go))
            final = models[-1]
        elif how in ("vmap", "vmap2"):
            def make():
                if how == "vmap":
                    return jax.jit(jax.vmap(one, in_axes=(None, 0, 0)))
                # a whole batch of controllers is stepped again
                return jax.jit(lambda c, H, U: jax.vmap(one)(jax.vmap(one, in_axes=(None, 0, 0))(c, H, U), H, U))
            fn = jitted(key, make)

            def run():
                out = fn(c.obj, H, U)
                return jax.tree_util.tree_map(lambda x: x[n - 1], out)
            final = models[-1]
        elif how == "pmap":
            # one controller, stepped on several devices at once
            fn = jitted(key, lambda: jax.pmap(one, in_axes=(None, 0, 0)))
            run = lambda: jax.tree_util.tree_map(lambda x: x[n - 1], fn(c.obj, H, U))
            final = models[-1]
        else:
            raise KeyError(how)
        final = final.copy()
        final.kind = "controller"
        final.classes = None
        self.count("prog:" + how)
        saved, self.tol = self.tol, max(self.tol, 2e-7)
        try:
            e = self.call(T, dict(op, mode="prog"), "prog", run, lambda: final, c.tpl)
        finally:
            self.tol = saved
        if e is not None:
            self.keep(T, op, e)

    # -- driving ----------------------------------------------------------------------
    def apply(self, T, op, opno=0):
        T.ctx.opno = opno
        if op.get("clock"):
            boot.CLOCK.jump(op["clock"])
            self.count("fault:clock-jump")
        try:
            getattr(self, "op_" + op["op"])(T, op)
        except Exception as e:
            T.ctx.on = False
            if self.mism:
                # already wrong: what follows from it may be anything
                self.note("stopped after", type(e).__name__)
                raise Stop()
            # the repository's code failed where the simulator only looks at an object
            tb, inside = e.__traceback__, False
            while tb is not None:
                inside = inside or tb.tb_frame.f_code.co_filename.startswith(boot.SRC)
                tb = tb.tb_next
            if not inside:
                raise
            name = {"step": "iterate", "jit": "iterate", "def": "define", "rt": "restore", "xform": "transform",
                    "cachewrong": "iterate"}.get(op["op"], op["op"])
            self.flag(name, "unreadable", None, "%s: %s" % (type(e).__name__, str(e)[:300]))


def _shapes_equal(a, b):
    try:
        la, ta = jax.tree_util.tree_flatten(a)
        lb, tb = jax.tree_util.tree_flatten(b)
        return la == lb and ta == tb
    except Exception:
        return False
