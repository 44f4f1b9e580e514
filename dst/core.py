"""Snapshots of real objects, the reference model, and their comparison.

The model is a direct transcription of the documented adaptive-computation rules into
float64 numpy, lane by lane. In the 'dyadic' regime every generated number is a small
dyadic rational, so float32 arithmetic is exact whatever the evaluation order and the
comparison is exact too - including ties with the halting threshold.
"""
import collections

import numpy as np

from . import boot
from .boot import jax, jnp, act
from src.jax_act.core.tensoreditor import TensorEditor
from src.jax_act.core.states import ACTStates

Controller, Builder, Viewer = act.ACT_Controller, act.ControllerBuilder, act.ACTViewer
tree_flatten = jax.tree_util.tree_flatten
tree_unflatten = jax.tree_util.tree_unflatten

Pair = collections.namedtuple("Pair", "first second")


class Box:
    """A user-defined pytree node (a plain registered class)."""

    def __init__(self, item):
        self.item = item


jax.tree_util.register_pytree_node(Box, lambda b: ((b.item,), None), lambda aux, c: Box(*c))

from dataclasses import dataclass  # noqa: E402


@dataclass
class Record:
    """A user-defined pytree node which is a dataclass."""
    left: object
    right: object


jax.tree_util.register_pytree_node(Record, lambda r: ((r.left, r.right), None),
                                   lambda aux, c: Record(*c))

# ---- pytree specifications ----------------------------------------------------------


def spec_build(spec, leaf):
    """Build the pytree described by spec, calling leaf(trailing_shape) for its leaves."""
    if "s" in spec:
        return leaf(spec["s"])
    if "d" in spec:
        return {k: spec_build(v, leaf) for k, v in spec["d"].items()}
    if "l" in spec:
        return [spec_build(v, leaf) for v in spec["l"]]
    if "t" in spec:
        return tuple(spec_build(v, leaf) for v in spec["t"])
    if "nt" in spec:
        return Pair(*[spec_build(v, leaf) for v in spec["nt"]])
    if "box" in spec:
        return Box(spec_build(spec["box"], leaf))
    if "rec" in spec:
        return Record(*[spec_build(v, leaf) for v in spec["rec"]])
    if "none" in spec:
        return None
    raise KeyError(spec)


def spec_shapes(spec):
    out = []
    spec_build(spec, lambda s: out.append(tuple(s)))
    return out


# ---- values -------------------------------------------------------------------------
DTYPES = {"float32": jnp.float32, "float16": jnp.float16, "bfloat16": jnp.bfloat16,
          "float64": jnp.float64, "int32": jnp.int32}
RELUNIT = {"float32": 2.0 ** -20, "float64": 2.0 ** -40, "float16": 2.0 ** -9, "bfloat16": 2.0 ** -6}


def raw_values(vs, shape, regime, salt=0):
    n = int(np.prod(shape)) if shape else 1
    if vs == 0:
        flat = np.ones(n)
    else:
        idx = np.arange(n, dtype=np.uint64)
        x = (idx + np.uint64(1)) * np.uint64(0x9E3779B97F4A7C15) + np.uint64(vs) * np.uint64(0xBF58476D1CE4E5B9) \
            + np.uint64(salt) * np.uint64(0x94D049BB133111EB)
        x ^= x >> np.uint64(31)
        x *= np.uint64(0xD6E8FEB86659FD93)
        x ^= x >> np.uint64(32)
        if regime == "dyadic":
            flat = ((x % np.uint64(33)).astype(np.float64) - 16.0) / 4.0
        else:
            flat = (x % np.uint64(2 ** 20)).astype(np.float64) / 2.0 ** 17 - 4.0
            flat = flat + (x % np.uint64(1009)).astype(np.float64) / 1009.0
    return flat.reshape(shape)


# ---- snapshots ----------------------------------------------------------------------


def host(x):
    """A numpy view (jax arrays are immutable) or copy (numpy arrays are not)."""
    if isinstance(x, np.ndarray):
        return x.copy()
    return np.asarray(x)


class Tree:
    """A frozen pytree: structure, leaf references, leaf values."""
    __slots__ = ("treedef", "refs", "leaves")

    def __init__(self, value):
        self.refs, self.treedef = tree_flatten(value)
        self.leaves = [host(x) for x in self.refs]

    def meta(self):
        return [(l.shape, str(l.dtype)) for l in self.leaves]


class Mtree:
    """A model pytree: structure and float64 leaves with their expected dtype."""
    __slots__ = ("treedef", "leaves", "dtypes", "scales")

    def __init__(self, treedef, leaves, dtypes, scales=None):
        self.treedef = treedef
        self.leaves = leaves
        self.dtypes = dtypes
        self.scales = scales or [None] * len(leaves)


class Snap:
    __slots__ = ("kind", "eps", "dep", "P", "R", "I", "acc", "defs", "upd", "mode", "smode", "order", "refs")

    FIELDS = ("eps", "dep", "P", "R", "I", "acc", "defs", "upd", "mode")


def kind_of(obj):
    if isinstance(obj, Controller):
        return "controller"
    if isinstance(obj, Builder):
        return "builder"
    if isinstance(obj, Viewer):
        return "viewer"
    if isinstance(obj, TensorEditor):
        return "editor"
    if isinstance(obj, ACTStates):
        return "state"
    return type(obj).__name__


def raw_state(obj):
    if isinstance(obj, ACTStates):
        return obj
    save = getattr(obj, "save", None)
    if save is not None:
        return save()
    state = getattr(obj, "state", None)
    if isinstance(state, ACTStates):
        return state
    return next(v for v in vars(obj).values() if isinstance(v, ACTStates))


def snap(obj):
    s = Snap()
    st = raw_state(obj)
    s.kind = kind_of(obj)
    src = st if s.kind == "state" else obj
    s.eps = float(st.epsilon)
    s.dep = float(st.depression_constant)
    P, R, I = src.probabilities, src.residuals, src.iterations
    s.P, s.R, s.I = host(P), host(R), host(I)
    acc, defs, upd = src.accumulators, st.defaults, st.updates
    s.acc = {k: Tree(v) for k, v in acc.items()}
    s.defs = {k: Tree(v) for k, v in defs.items()}
    s.upd = {k: (None if v is None else Tree(v)) for k, v in upd.items()}
    s.mode = getattr(obj, "error_mode", None) if s.kind == "editor" else None
    s.smode = getattr(st, "error_mode", None)
    s.order = [list(g) for g in (acc, defs, upd)]
    s.refs = (P, R, I, acc, defs, upd)
    return s


def same_array(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def same_tree(a, b):
    if a is None or b is None:
        return a is b
    return a.treedef == b.treedef and len(a.leaves) == len(b.leaves) and \
        all(same_array(x, y) for x, y in zip(a.leaves, b.leaves))


def diff_snaps(a, b, ignore=()):
    """Names of the fields in which two snapshots differ (bitwise)."""
    out = []
    for f in ("eps", "dep", "mode", "smode"):
        if f not in ignore and getattr(a, f) != getattr(b, f):
            out.append(f)
    for f in ("P", "R", "I"):
        if not same_array(getattr(a, f), getattr(b, f)):
            out.append(f)
    for f in ("acc", "defs", "upd"):
        x, y = getattr(a, f), getattr(b, f)
        if set(x) != set(y):
            out.append(f + ":names")
            continue
        for k in sorted(x):
            if not same_tree(x[k], y[k]):
                out.append("%s:%s" % (f, k))
    return out


def _tree_unchanged(value, tree):
    if tree is None:
        return value is None
    if value is None:
        return False
    leaves, treedef = tree_flatten(value)
    if treedef != tree.treedef or len(leaves) != len(tree.refs):
        return False
    for now, ref, frozen in zip(leaves, tree.refs, tree.leaves):
        if now is ref and not isinstance(now, np.ndarray):
            if isinstance(now, jax.Array) and now.is_deleted():
                return False
            continue
        if not same_array(np.asarray(now), frozen):
            return False
    return True


def changed_since(obj, s):
    """Which fields of a live object differ from its snapshot; [] when none does."""
    try:
        st = raw_state(obj)
        src = st if s.kind == "state" else obj
        out = []
        if st.epsilon is not None and float(st.epsilon) != s.eps:
            out.append("eps")
        if float(st.depression_constant) != s.dep:
            out.append("dep")
        if s.kind == "editor" and obj.error_mode != s.mode:
            out.append("mode")
        now = (src.probabilities, src.residuals, src.iterations)
        for name, value, ref, frozen in zip("PRI", now, s.refs, (s.P, s.R, s.I)):
            if value is ref and not isinstance(value, np.ndarray):
                if value.is_deleted():
                    out.append(name)
                continue
            if not same_array(np.asarray(value), frozen):
                out.append(name)
        for field, value, frozen in (("acc", src.accumulators, s.acc), ("defs", st.defaults, s.defs),
                                     ("upd", st.updates, s.upd)):
            if set(value) != set(frozen):
                out.append(field + ":names")
                continue
            for k in value:
                if not _tree_unchanged(value[k], frozen[k]):
                    out.append("%s:%s" % (field, k))
        # containers handed out when the object was new must not have been altered either
        for field, value, frozen in (("acc", s.refs[3], s.acc), ("defs", s.refs[4], s.defs),
                                     ("upd", s.refs[5], s.upd)):
            if set(value) != set(frozen):
                out.append(field + ":names(held)")
                continue
            for k in value:
                if not _tree_unchanged(value[k], frozen[k]):
                    out.append("%s:%s(held)" % (field, k))
        return out
    except Exception as e:
        return ["unreadable:" + type(e).__name__]


# ---- the reference model ------------------------------------------------------------


class M:
    """Expected state: float64 arrays plus expected structure/dtypes."""
    __slots__ = ("kind", "eps", "dep", "P", "R", "I", "acc", "defs", "upd", "mode",
                 "smode", "dtypes", "skip", "classes")

    def copy(self):
        m = M()
        for f in M.__slots__:
            v = getattr(self, f, None)
            setattr(m, f, dict(v) if isinstance(v, dict) else v)
        return m


def f64(x):
    return np.asarray(x).astype(np.float64)


def mtree(tree):
    if tree is None:
        return None
    return Mtree(tree.treedef, [f64(l) for l in tree.leaves], [str(l.dtype) for l in tree.leaves])


def lift(s, kind=None):
    m = M()
    m.kind = kind or s.kind
    m.eps, m.dep, m.mode, m.smode = s.eps, s.dep, s.mode, s.smode
    m.P, m.R, m.I = f64(s.P), f64(s.R), f64(s.I)
    m.dtypes = {"P": str(s.P.dtype), "R": str(s.R.dtype), "I": str(s.I.dtype)}
    m.acc = {k: mtree(v) for k, v in s.acc.items()}
    m.defs = {k: mtree(v) for k, v in s.defs.items()}
    m.upd = {k: mtree(v) for k, v in s.upd.items()}
    m.skip = None
    m.classes = None
    return m


def left(mask, like):
    return np.broadcast_to(mask.reshape(mask.shape + (1,) * (like.ndim - mask.ndim)), like.shape)


class Reject(Exception):
    """The model says: this call must raise one of these types."""

    def __init__(self, *types, why=""):
        self.types = types
        self.why = why


class Failure:
    """In place of an exception type: the caller must see this very failure, or an error caused by it."""

    def __init__(self, cls, wrap=None):
        self.cls = cls
        self.wrap = wrap if issubclass(cls, Exception) else None    # what an ordinary failure is wrapped in
        self.__name__ = cls.__name__


def threshold(m):
    return 1.0 - m.eps


def halted(m):
    with np.errstate(invalid="ignore"):
        return m.P > threshold(m)


def m_cache(m, name, tree):
    if name not in m.upd:
        raise Reject(ValueError, why="unknown accumulator")
    if m.upd[name] is not None:
        raise Reject(RuntimeError, why="slot already filled")
    out = m.copy()
    out.upd[name] = mtree(tree)
    return out


def weights(m, h):
    """-> weight, halted-before, newly-halting, ambiguous (too close to the threshold to call)"""
    with np.errstate(invalid="ignore"):
        thr = threshold(m)
        hh = np.clip(h, 0.0, 1.0) * m.dep
        before = m.P > thr
        total = m.P + hh
        will = total > thr
        near = (np.abs(total - thr) < 1e-5) | (np.abs(m.P - thr) < 1e-6)
        w = np.where(will, 1.0 - m.P, hh)
    return w, before, will & ~before, near & ~before


def m_iterate(m, h, regime, hshape=None):
    if tuple(h.shape) != tuple(m.P.shape):
        raise Reject(ValueError, why="halting probabilities of the wrong shape")
    for name, a in m.acc.items():
        u = m.upd.get(name)
        if u is None:
            raise Reject(RuntimeError, why="no update cached")
        if len(u.leaves) != len(a.leaves):
            raise Reject(RuntimeError, why="update with another number of leaves")
        for x, y in zip(a.leaves, u.leaves):
            if x.shape != y.shape:
                raise Reject(RuntimeError, why="update of another shape")
    out = m.copy()
    w, before, newly, near = weights(m, h)
    with np.errstate(invalid="ignore", over="ignore"):
        out.P = np.where(before, m.P, m.P + w)
        out.R = np.where(newly, 1.0 - m.P, m.R)
        out.I = np.where(before, m.I, m.I + 1.0)
        for name, a in m.acc.items():
            leaves, scales = [], []
            for x, u, sc in zip(a.leaves, m.upd[name].leaves, a.scales):
                wu = left(w, x) * u
                leaves.append(np.where(left(before, x), x, x + wu))
                # over several steps the rounding errors of each add up
                scales.append(np.abs(x) + np.where(left(before, x), 0.0, np.abs(wu)) + (0 if sc is None else sc))
            out.acc[name] = Mtree(a.treedef, leaves, a.dtypes, scales)
    out.upd = {k: None for k in m.upd}
    out.skip = near if regime != "dyadic" else None
    out.classes = {"running": ~before & ~newly, "halting": newly, "halted": before}
    return out


def m_reset(m):
    if any(u is not None for u in m.upd.values()):
        raise Reject(RuntimeError, why="updates are pending")
    out = m.copy()
    stop = halted(m)
    out.P = np.where(stop, 0.0, m.P)
    out.R = np.where(stop, 0.0, m.R)
    out.I = np.where(stop, 0.0, m.I)
    for name, a in m.acc.items():
        d = m.defs[name]
        out.acc[name] = Mtree(a.treedef,
                              [np.where(left(stop, x), y, x) for x, y in zip(a.leaves, d.leaves)], a.dtypes,
                              a.scales)
    out.classes = {"running": ~stop, "halted": stop}
    return out


def _tmap(fn, t):
    return None if t is None else Mtree(t.treedef, [fn(x) for x in t.leaves], t.dtypes)


def m_mask(m, mask):
    def zero(x):
        return np.where(left(mask, x), x, 0.0)
    out = m.copy()
    out.P, out.R, out.I = zero(m.P), zero(m.R), zero(m.I)
    for f in ("acc", "defs", "upd"):
        setattr(out, f, {k: _tmap(zero, v) for k, v in getattr(m, f).items()})
    out.classes = {"kept": mask, "masked": ~mask}
    return out


def m_transform(m, fn):
    out = m.copy()
    out.P, out.R, out.I = fn(m.P), fn(m.R), fn(m.I)
    for f in ("acc", "defs", "upd"):
        setattr(out, f, {k: _tmap(fn, v) for k, v in getattr(m, f).items()})
    return out


# ---- comparison ---------------------------------------------------------------------


class Mismatch:
    __slots__ = ("op", "field", "lanes", "detail")

    def __init__(self, op, field, lanes, detail):
        self.op, self.field, self.lanes, self.detail = op, field, lanes, detail

    def key(self):
        return (self.op, self.field.split(":")[0], self.lanes or "")

    def __repr__(self):
        return "%s/%s[%s]: %s" % (self.op, self.field, self.lanes or "-", self.detail)


def bad_elements(exp, got, dtype, regime, scale=None):
    got64 = f64(got)
    exact = regime == "dyadic" and dtype in ("float32", "float64")
    with np.errstate(invalid="ignore", over="ignore"):
        if exact:
            # beyond what float32 holds exactly (updates of 2**40): rounding is allowed
            ref = np.abs(exp) if scale is None else np.maximum(np.abs(exp), scale)
            ok = (exp == got64) | ((ref > 2.0 ** 13) & np.isfinite(ref) &
                                   (np.abs(exp - got64) <= 2.0 ** -21 * ref) & (np.abs(exp - got64) < ref))
        else:
            unit = RELUNIT.get(dtype, 2.0 ** -20)
            unit = max(unit, 2.0 ** -20 if regime != "flax" else 2.0 ** -16)     # general inputs are float32 whatever the precision
            ref = np.abs(exp) + (scale if scale is not None else 0.0)
            ok = (exp == got64) | (np.isfinite(ref) & (np.abs(exp - got64) <= unit * np.maximum(ref, 1e-3)))
        ok = ok | (~np.isfinite(exp) & ~np.isfinite(got64))
        if dtype in ("float16", "bfloat16"):
            big = np.abs(exp) > 6e4
            ok = ok | (big & ~np.isfinite(got64))
    return ~ok


def lane_reduce(bad, batch_ndim):
    return bad.any(axis=tuple(range(batch_ndim, bad.ndim))) if bad.ndim > batch_ndim else bad


def compare(op, exp, got, regime, eps_tol=0.0):
    """Mismatches between a model state and a snapshot of the real one."""
    out = []
    nb = exp.P.ndim if exp.classes is None or not exp.classes else \
        next(iter(exp.classes.values())).ndim

    def lanes_of(bad):
        if exp.classes is None:
            return None
        lanes = lane_reduce(bad, nb)
        names = [c for c, mask in exp.classes.items() if bool((mask & lanes).any())]
        return "+".join(names) or None

    def arrays(field, e, g, dtype, scale=None):
        if str(g.dtype) != dtype:
            out.append(Mismatch(op, "meta:" + field, None, "dtype %s, expected %s" % (g.dtype, dtype)))
        if g.shape != e.shape:
            out.append(Mismatch(op, "meta:" + field, None, "shape %s, expected %s" % (g.shape, e.shape)))
            return
        bad = bad_elements(e, g, dtype, regime, scale)
        if exp.skip is not None:
            sk = exp.skip
            bad = bad & ~np.broadcast_to(sk.reshape(sk.shape + (1,) * (bad.ndim - sk.ndim)), bad.shape) \
                if bad.ndim >= sk.ndim else bad
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            if not bad.ndim:
                i = ()
            text = "element %s is %r, expected %r (%d wrong)" % (
                list(i), float(f64(g)[i]), float(e[i]), int(bad.sum()))
            if exp.classes is None:
                out.append(Mismatch(op, field, None, text))
            else:
                for c in (lanes_of(bad) or "?").split("+"):
                    out.append(Mismatch(op, field, c, text))

    for f in ("eps", "dep"):
        e, g = getattr(exp, f), getattr(got, f)
        if abs(e - g) > eps_tol * max(1.0, abs(e)):
            out.append(Mismatch(op, f, None, "%r, expected %r" % (g, e)))
    if exp.mode is not None and got.kind == "editor" and exp.mode != got.mode:
        out.append(Mismatch(op, "mode", None, "%r, expected %r" % (got.mode, exp.mode)))
    if getattr(exp, "smode", None) is not None and exp.smode != got.smode:
        out.append(Mismatch(op, "mode:state", None, "the error mode of the state is %r, expected %r" % (got.smode, exp.smode)))
    for f in ("P", "R", "I"):
        arrays(f, getattr(exp, f), getattr(got, f), exp.dtypes[f])
    for f in ("acc", "defs", "upd"):
        e, g = getattr(exp, f), getattr(got, f)
        if set(e) != set(g):
            out.append(Mismatch(op, "%s:names" % f, None, "%s, expected %s" % (sorted(g), sorted(e))))
        for k in sorted(set(e) & set(g)):
            te, tg = e[k], g[k]
            if (te is None) != (tg is None):
                out.append(Mismatch(op, "slot:" + k if f == "upd" else "%s:%s" % (f, k), None,
                                    "%s, expected %s" % ("empty" if tg is None else "filled",
                                                         "empty" if te is None else "filled")))
                continue
            if te is None:
                continue
            if te.treedef != tg.treedef:
                out.append(Mismatch(op, "meta:%s:%s" % (f, k), None,
                                    "structure %s, expected %s" % (tg.treedef, te.treedef)))
                if len(te.leaves) != len(tg.leaves):
                    continue
            assert len(te.leaves) == len(te.dtypes) == len(te.scales) == len(tg.leaves)
            for n, (x, y, d, sc) in enumerate(zip(te.leaves, tg.leaves, te.dtypes, te.scales)):
                arrays("%s:%s#%d" % (f, k, n), x, y, d, sc)
    return out
