"""Differentiating a stretch of a history, against a reverse pass over the reference model."""
import zlib

import numpy as np

from . import boot, core
from .boot import jax, jnp
from .core import Snap, Tree, f64, lift
from .world import World, jitted
from src.jax_act.layers import AbstractACTTemplate

FLOATS = ("float32", "float64")


def reverse(models, hs, us, names, resets, view, gA, gP, gR):
    """Adjoint of the documented rules. models[t] is the state before step t; models[-1] the end.

    -> cotangents for (accumulators, defaults, P, R, dep, H, U)"""
    left = core.left
    end = models[-1][0]
    if view:
        stop = core.halted(end)
        keep = stop if view == 1 else ~stop
        gP, gR = np.where(keep, gP, 0.0), np.where(keep, gR, 0.0)
        gA = {n: [np.where(left(keep, x), x, 0.0) for x in gA[n]] for n in names}
    gD = {n: [np.zeros_like(x) for x in gA[n]] for n in names}
    gdep, gH, gU = 0.0, [None] * len(hs), [None] * len(hs)
    for t in range(len(hs) - 1, -1, -1):
        m, stepped = models[t]
        h, u = hs[t], us[t]
        if resets[t]:
            stop = core.halted(stepped)
            gP, gR = np.where(stop, 0.0, gP), np.where(stop, 0.0, gR)
            for n in names:
                gD[n] = [d + np.where(left(stop, x), x, 0.0) for d, x in zip(gD[n], gA[n])]
                gA[n] = [np.where(left(stop, x), 0.0, x) for x in gA[n]]
        w, before, newly, _ = core.weights(m, h)
        gw = np.where(before, 0.0, gP)
        gU[t] = {}
        for n in names:
            gU[t][n] = [np.where(left(before, x), 0.0, left(w, x) * x) for x in gA[n]]
            for x, y in zip(gA[n], u[n]):
                s = (x * y).sum(tuple(range(w.ndim, x.ndim)))
                gw = gw + np.where(before, 0.0, s)
        gP = gP + np.where(newly, -gR, 0.0)
        gR = np.where(newly, 0.0, gR)
        inside = (h > 0) & (h < 1)
        gP = gP + np.where(newly, -gw, 0.0)
        gh = np.where(~before & ~newly, gw, 0.0)
        gdep = gdep + float((gh * np.clip(h, 0, 1)).sum())
        gH[t] = np.where((h == 0) | (h == 1), np.nan, gh * m.dep * inside)     # nan: clip has no derivative there
    return gA, gD, gP, gR, gdep, gH, gU


class Replayed(AbstractACTTemplate):
    """The steps as a layer, for differentiating through the repository's own loop."""

    def __init__(self, start, names):
        self.start, self.names = start, names

    def make_controller(self, initial_state, depression_constant):
        return self.start

    def setup_lazy_parameters(self, controller, state):
        pass

    def run_iteration(self, controller, state):
        t, H, U = state
        for nm in self.names:
            controller = controller.cache_update(nm, jax.tree_util.tree_map(lambda x: x[t], U[nm]))
        return controller.iterate_act(H[t]), (t + 1, H, U)


def op_grad(self, T, op):
    c = self.pick(T, op, "controller")
    if c is None or not c.snap.acc or any(u is not None for u in c.snap.upd.values()):
        return
    s = c.snap
    names = self.all_names(c)
    dts = [str(l.dtype) for n in names for l in s.acc[n].leaves] + [str(s.P.dtype)]
    if any(d not in FLOATS for d in dts) or not np.isfinite(f64(s.P)).all():
        return
    if not all(np.isfinite(f64(l)).all() for n in names for l in s.acc[n].leaves + s.defs[n].leaves):
        return
    how = op.get("how", "eager")
    n = op.get("n", 3)
    bits = op.get("resets", 0)
    if how == "scan":
        bits = -1 if bits & 1 else 0
    if how == "drive":
        bits = 0
    resets = [bool(bits >> t & 1) for t in range(n)]
    view = op.get("view", 0)
    trip = op.get("trip", 0)
    mid = 0 if how in ("scan", "drive") else op.get("mid", 0)
    vs = op.get("vs", 0)
    hspecs = op.get("hs") or [[0.25]]
    dt = core.DTYPES[str(s.P.dtype)]
    m, models, hs, us, utrees = lift(s), [], [], [], []
    for t in range(n):
        fake = Snap()
        fake.P, fake.eps, fake.dep = m.P, m.eps, m.dep
        h = self.halting(hspecs[t % len(hspecs)], fake)
        h = np.where(np.isfinite(h), h, 0.25).astype(str(s.P.dtype)).astype(np.float64)
        trees = {nm: self.update_tree(c, nm, (vs + 13 * t + i) if vs else 0, {}) for i, nm in enumerate(names)}
        mm = m
        for nm in names:
            mm = core.m_cache(mm, nm, Tree(trees[nm]))
        stepped = core.m_iterate(mm, h, self.regime)
        if stepped.skip is not None and stepped.skip.any():
            return
        models.append((m, stepped))
        m = core.m_reset(stepped) if resets[t] else stepped
        hs.append(h)
        us.append({nm: [f64(l) for l in Tree(trees[nm]).leaves] for nm in names})
        utrees.append(trees)
    models.append((m, None))
    if any(sc is not None and (np.asarray(sc) > 1e6).any() for nm in names for sc in m.acc[nm].scales):
        return
    H = jnp.asarray(np.stack(hs), dt)
    U = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *utrees)
    rnd = np.random.RandomState((vs * 7 + n) % 2 ** 31)

    def ct(shape, dtype):
        return jnp.asarray(rnd.randint(-4, 5, size=shape) / 4.0, dtype)
    cA = {nm: jax.tree_util.tree_map(lambda x: ct(x.shape, x.dtype), c.obj.accumulators[nm]) for nm in names}
    cP, cR = ct(s.P.shape, dt), ct(s.P.shape, dt)
    leaves = jax.tree_util.tree_leaves

    def one(c, h, u, rs, k=0):
        for nm in names:
            c = c.cache_update(nm, u[nm])
        if mid and k == n // 2:
            c = jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(c)))
        c = c.iterate_act(h)
        return c.reset_batches() if rs else c

    def finish(c):
        if view:
            c = c.make_viewer()
            c = c.halted_only() if view == 1 else c.unhalted_only()
        return {nm: c.accumulators[nm] for nm in names}, c.probabilities, c.residuals

    def unrolled(c, H, U):
        for t in range(n):
            c = one(c, H[t], jax.tree_util.tree_map(lambda x: x[t], U), resets[t], t)
        return finish(c)

    def scanned(c, H, U):
        return finish(jax.lax.scan(lambda c, x: (one(c, x[0], x[1], resets[0]), 0), c, (H, U))[0])

    def driven(c, H, U):
        return finish(Replayed(c, names).execute_act((jnp.zeros((), jnp.int32), H, U), 1.0, n)[0])
    f = {"scan": scanned, "drive": driven}.get(how, unrolled)
    if op.get("remat"):
        f = jax.checkpoint(f)

    def pull(c, H, U, ct):
        return jax.vjp(f, c, H, U)[1](ct)

    def go():
        cot = (cA, cP, cR)
        if how in ("fwd", "drive"):
            def scalar(H, U):
                out = f(c.obj, H, U)
                return sum(jnp.sum(a * b) for a, b in zip(leaves(out), leaves(cot)))
            return jax.jvp(scalar, (H, U), (dH, dU))[1]
        if how == "eager":
            return pull(c.obj, H, U, cot)
        key = ("grad", how, n, tuple(names), tuple(resets), view, mid, bool(op.get("remat")))
        return jitted(key, lambda: jax.jit(pull))(c.obj, H, U, cot)
    gA, gD, gP, gR, gdep, gH, gU = reverse(models, hs, us, names, resets, view,
                                           {nm: [f64(x) for x in leaves(cA[nm])] for nm in names}, f64(cP), f64(cR))
    if how in ("fwd", "drive"):
        dH = jnp.asarray(np.where(np.isnan(np.stack(gH)), 0.0, rnd.randint(-4, 5, size=H.shape) / 4.0), dt)
        dU = jax.tree_util.tree_map(lambda x: ct(x.shape, x.dtype), U)
    self.count("grad:" + how)
    self.count("op:grad")
    try:
        got = go()
    except Exception as e:
        self.flag("grad", "error", None, "differentiating (%s) raised %s: %s" % (how, type(e).__name__, str(e)[:300]))
        return

    def same(field, exp, val):
        exp, val = np.asarray(exp, np.float64), f64(val)
        if exp.shape != val.shape:
            self.flag("grad", field, None, "gradient of shape %s, expected %s" % (val.shape, exp.shape))
            return
        with np.errstate(invalid="ignore"):
            bad = ~(np.abs(exp - val) <= 2.0 ** -14 * np.maximum(np.abs(exp), 16.0 * n)) & ~np.isnan(exp)
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            self.flag("grad", field, None, "%s derivative %s at %s is %r, expected %r" % (
                how, field, list(i), float(val[i]), float(exp[i])))
    if how in ("fwd", "drive"):
        total = float((np.nan_to_num(np.stack(gH)) * f64(dH)).sum())
        for nm in names:
            for k, x in enumerate(leaves(dU[nm])):
                total += float((np.stack([gU[t][nm][k] for t in range(n)]) * f64(x)).sum())
        size = sum(x.size for x in leaves(dU)) + dH.size
        if not abs(total - float(got)) <= 2.0 ** -14 * (16.0 * n + size):
            self.flag("grad", "fwd", None, "directional derivative (%s) %r, expected %r" % (how, float(got), total))
        self.note("grad", "%.4f" % float(got))
        return
    gc, gotH, gotU = got
    try:
        same("h", np.stack(gH), gotH)
        same("P", gP, gc.probabilities)
        same("R", gR, gc.residuals)
        same("dep", gdep, gc.depression_constant)
        for nm in names:
            for k, (x, y) in enumerate(zip(gA[nm], leaves(gc.accumulators[nm]))):
                same("acc:%s#%d" % (nm, k), x, y)
            for k, (x, y) in enumerate(zip(gD[nm], leaves(gc.state.defaults[nm]))):
                same("defs:%s#%d" % (nm, k), x, y)
            for k, y in enumerate(leaves(gotU[nm])):
                same("u:%s#%d" % (nm, k), np.stack([gU[t][nm][k] for t in range(n)]), y)
    except Exception as e:
        self.flag("grad", "unreadable", None, "%s: %s" % (type(e).__name__, str(e)[:200]))
    self.note("grad", how, zlib.crc32(b"".join(np.asarray(x).tobytes() for x in leaves(got))))


World.op_grad = op_grad
