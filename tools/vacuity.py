#!/usr/bin/env python3
"""Is the oracle awake? Every result the simulator compares is compared again after each single
field of it was corrupted; every such comparison has to produce a mismatch.

usage: tools/vacuity.py [runs per property] [seed]     (development tool; prints what went unnoticed)
"""
import collections, copy, os, random, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.environ.setdefault("JAX_PLATFORMS", "cpu")
import numpy as np
from dst import boot, core, props, run, runner, session, world  # noqa: F401

real = core.compare
seen, missed = collections.Counter(), collections.Counter()
rng = random.Random(1)
where = {}
NOW = [None]


def bump(a):
    b = np.array(a, copy=True)
    i = tuple(rng.randrange(n) for n in b.shape)
    old = b[i]
    b[i] = 3 if not np.isfinite(float(old)) or float(old) != 3 else 5
    return b, i


def variants(got):
    def clone():
        c = copy.copy(got)
        c.acc, c.defs, c.upd = dict(got.acc), dict(got.defs), dict(got.upd)
        return c
    for f in ("eps", "dep"):
        c = clone(); setattr(c, f, getattr(got, f) + 0.5); yield f, None, c
    for f in "PRI":
        a = getattr(got, f)
        if a.size:
            c = clone(); b, i = bump(a); setattr(c, f, b); yield f, i, c
        c = clone(); setattr(c, f, a[None]); yield f + ":shape", None, c
        c = clone(); setattr(c, f, a.astype("int16")); yield f + ":dtype", None, c
    for f in ("acc", "defs", "upd"):
        for k, t in getattr(got, f).items():
            c = clone(); del getattr(c, f)[k]; yield f + ":gone", None, c
            if t is None:
                continue
            c = clone(); getattr(c, f)[k] = None; yield f + ":none", None, c
            for n, l in enumerate(t.leaves):
                if not l.size:
                    continue
                c = clone(); nt = copy.copy(t); nt.leaves = list(t.leaves)
                nt.leaves[n], i = bump(l)
                getattr(c, f)[k] = nt
                yield f, i, c


def compare(op, exp, got, regime, eps_tol=0.0):
    base = real(op, exp, got, regime, eps_tol)
    before = len(base)
    if not before:
        for f, i, c in variants(got):
            key = (op, f)
            if exp.skip is not None and exp.skip.any():
                continue
            seen[key] += 1
            if not real(op, exp, c, regime, eps_tol):
                missed[key] += 1
                where.setdefault(key, (NOW[0], i))
    return base


core.compare = world.compare = compare
for m in (sys.modules[n] for n in list(sys.modules) if n.startswith("dst.")):
    if getattr(m, "compare", None) is real:
        m.compare = compare
n, seed = int((sys.argv + [6])[1]), int((sys.argv + [0, 5])[2] if len(sys.argv) > 2 else 5)
for prop in runner.CLAIMED:
    s = session.Session(seed, prop, 0, "quick")
    for i in range(n):
        NOW[0] = (prop, i)
        run.execute(s.trace(i))
print(sum(seen.values()), "corruptions,", sum(missed.values()), "unnoticed")
for k in sorted(missed):
    print(k, missed[k], "of", seen[k], where[k])
ops = sorted({k[0] for k in seen})
print("operations:", " ".join(ops))
