"""Second executions of the same history that may differ everywhere except in one lane or
one accumulator; used to decide non-interference (C11, C16)."""
import numpy as np

from . import core, world


def _lane_mask(shape, nb, lane):
    n = int(np.prod(shape[:nb])) if nb else 1
    m = np.zeros(n, bool)
    if n:
        m[lane % n] = True
    return m.reshape(shape[:nb])


class Same:
    """The reference execution: changes nothing, only records."""

    def values(self, v, vs, shape, regime, nb, chan):
        return v

    def halting(self, h, w, s):
        return h

    def mask(self, m):
        return m

    def stat(self, v, s):
        return v

    def tpls(self, tpls):
        return tpls


class Lanes(Same):
    def __init__(self, spec):
        self.lane, self.salt, self.poison = spec["lane"], spec["salt"], spec["poison"]

    def values(self, v, vs, shape, regime, nb, chan):
        if nb is None or v.size == 0:
            return v
        other = core.raw_values(vs * 31 + self.salt, shape, regime)
        if self.poison:
            lanes = int(np.prod(shape[:nb])) if nb else 1
            flat = other.reshape((lanes, -1)).copy()
            for i in range(lanes):
                if (i + vs) % 3 == 0 or self.poison == 2:
                    flat[i] = [np.nan, np.inf, -np.inf, 1e30][(i + self.salt + vs) % 4]
            other = flat.reshape(shape)
        keep = core.left(_lane_mask(shape, nb, self.lane), v)
        return np.where(keep, v, other)

    def halting(self, h, w, s):
        if h.size == 0:
            return h
        choices = [0.0, 0.25, 1.0, 0.5, 0.0625] + ([np.nan, np.inf, -np.inf] if self.poison else [2.0])
        idx = (np.arange(h.size) * 7 + self.salt + int(np.nansum(np.abs(np.where(np.isfinite(h), h, 3)) * 64))) % len(choices)
        other = np.array(choices)[idx].reshape(h.shape)
        # must not depend on the watched lane's own value in a way that alters it: it is kept
        return np.where(_lane_mask(h.shape, h.ndim, self.lane), h, other)

    def mask(self, m):
        if m.size == 0:
            return m
        return np.where(_lane_mask(m.shape, m.ndim, self.lane), m, ~m)

    def stat(self, v, s):
        if v.size == 0 or v.shape != s.P.shape:
            return v
        keep = _lane_mask(v.shape, v.ndim, self.lane)
        return np.where(keep, v, v.ravel()[::-1].reshape(v.shape))


class Chans(Same):
    def __init__(self, spec, tpls):
        self.spec = spec
        self.maps = []          # per template: name in the reference -> name here
        self.new = []
        for t in tpls:
            names = [c["name"] for c in t["chans"]]
            pool = [n for n in spec["names"] if n not in names]
            mapping = {}
            for i, n in enumerate(names):
                mapping[n] = pool[i] if spec["rename"] and i < len(pool) else n
            chans = [dict(c, name=mapping[c["name"]]) for c in t["chans"]]
            extras = []
            for k in range(spec["extra"]):
                nm = "extra-%d" % k if k else ("0first" if spec["salt"] % 2 else "zlast")
                tree = [{"s": [2]}, {"d": {"e": {"s": []}}}][k % 2]
                extras.append({"name": nm, "tree": tree, "dtype": "float32", "how": "direct", "extra": 1})
            self.maps.append(mapping)
            self.new.append(dict(t, chans=chans, extras=extras))
        self.focus_names = []
        for t, m in zip(tpls, self.maps):
            n = t["chans"][spec["focus"] % len(t["chans"])]["name"]
            self.focus_names.append((n, m[n]))

    def tpls(self, tpls):
        return self.new

    def values(self, v, vs, shape, regime, nb, chan):
        if chan is None or any(chan == f for _, f in self.focus_names):
            return v
        other = core.raw_values(vs * 37 + self.spec["salt"], shape, regime)
        if self.spec["poison"] and other.size:
            other = np.full(shape, [np.nan, np.inf, -np.inf, 1e30][(vs + self.spec["salt"]) % 4])
        return other


def _slot(tree, lane, nb):
    """the watched lane of every leaf"""
    if tree is None:
        return None
    out = []
    for l in tree.leaves:
        if l.ndim < nb:
            out.append(l)
            continue
        n = int(np.prod(l.shape[:nb])) if nb else 1
        if n == 0:
            out.append(l)
            continue
        out.append(l.reshape((n,) + l.shape[nb:])[lane % n])
    return out


def _same_leaves(a, b):
    if a is None or b is None:
        return a is b
    return len(a) == len(b) and all(core.same_array(np.ascontiguousarray(x), np.ascontiguousarray(y)) or
                                    _nan_same(x, y) for x, y in zip(a, b))


def _nan_same(x, y):
    """NaN payloads are not part of the promise"""
    if x.shape != y.shape or x.dtype != y.dtype:
        return False
    a, b = x.astype(np.float64), y.astype(np.float64)
    if not (np.isnan(a) == np.isnan(b)).all():
        return False
    na = np.isnan(a)
    return core.same_array(np.where(na, 0, a), np.where(na, 0, b))


def compare_records(wa, wb, twin, spec, scen):
    """-> [(opno, Mismatch)]"""
    out = []
    A, B = wa.record, wb.record
    n = min(len(A), len(B))
    for i in range(n):
        (oa, na, ra), (ob, nb_, rb) = A[i], B[i]
        if (oa, na) != (ob, nb_):
            out.append((oa, core.Mismatch(na, scen + ":course", None, "the paired run did %s at this point" % nb_)))
            return out
        if isinstance(ra, str) or isinstance(rb, str) or ra is None or rb is None:
            if isinstance(ra, world.Entry) != isinstance(rb, world.Entry) or (isinstance(ra, str) and ra != rb):
                out.append((oa, core.Mismatch(na, scen + ":outcome", None, "%s here, %s in the paired run" % (
                    ra if not isinstance(ra, world.Entry) else "a result",
                    rb if not isinstance(rb, world.Entry) else "a result"))))
                return out
            continue
        a, b = ra.snap, rb.snap
        bad = []
        if scen == "lane":
            nb = len(wa.tpls[ra.tpl]["batch"])
            for f in ("P", "R", "I"):
                x, y = getattr(a, f), getattr(b, f)
                if x.ndim < nb or x.shape != y.shape:
                    if x.shape != y.shape:
                        bad.append(f)
                    continue
                k = int(np.prod(x.shape[:nb])) if nb else 1
                if k == 0:
                    continue
                x, y = (v.reshape((k,) + v.shape[nb:])[spec["lane"] % k] for v in (x, y))
                if not _same_leaves([x], [y]):
                    bad.append(f)
            for f in ("acc", "defs", "upd"):
                x, y = getattr(a, f), getattr(b, f)
                if set(x) != set(y):
                    bad.append(f + ":names")
                    continue
                for nm in sorted(x):
                    if not _same_leaves(_slot(x[nm], spec["lane"], nb), _slot(y[nm], spec["lane"], nb)):
                        bad.append("%s:%s" % (f, nm))
        else:
            for f in ("P", "R", "I"):
                x, y = getattr(a, f), getattr(b, f)
                if not _same_leaves([x], [y]):
                    bad.append(f)
            if a.eps != b.eps or a.dep != b.dep:
                bad.append("eps/dep")
            name, other = twin.focus_names[ra.tpl]
            for f in ("acc", "defs", "upd"):
                x, y = getattr(a, f), getattr(b, f)
                if (name in x) != (other in y):
                    bad.append(f + ":names")
                    continue
                if name in x:
                    tx, ty = x[name], y[other]
                    if (tx is None) != (ty is None) or (tx is not None and (
                            tx.treedef != ty.treedef or not _same_leaves(tx.leaves, ty.leaves))):
                        bad.append("%s:%s" % (f, name))
                miss = [k for k in x if twin.maps[ra.tpl].get(k, k) not in y]
                if miss:
                    bad.append(f + ":lost")
        for f in bad:
            out.append((oa, core.Mismatch(na, scen + ":" + f, None,
                                          "differs although only other %s were changed" % (
                                              "lanes" if scen == "lane" else "accumulators"))))
        if bad:
            return out
    if len(A) != len(B):
        out.append((0, core.Mismatch("history", scen + ":course", None, "the runs did %d and %d operations" % (len(A), len(B)))))
    return out


def compare_history(wa, wb):
    """The same operations, whatever else went on: the same results to the bit, the same errors."""
    for (oa, na, ra), (ob, nb, rb) in zip(wa.record, wb.record):
        if (oa, na) != (ob, nb):
            return [(oa, core.Mismatch(na, "hist:course", None, "with other clients around, it did %s at this point" % nb))]
        if isinstance(ra, world.Entry) and isinstance(rb, world.Entry):
            bad = core.diff_snaps(ra.snap, rb.snap)
            if bad:
                return [(oa, core.Mismatch(na, "hist:" + bad[0], None, "differs with other clients around: %s" % ",".join(bad)))]
        elif isinstance(ra, world.Entry) or isinstance(rb, world.Entry) or ra != rb:
            say = lambda r: "a result" if r is None or isinstance(r, world.Entry) else r
            return [(oa, core.Mismatch(na, "hist:outcome", None, "%s alone, %s with other clients around" % (say(ra), say(rb))))]
    if wa.log != wb.log:
        n = next((i for i, (x, y) in enumerate(zip(wa.log, wb.log)) if x != y), min(len(wa.log), len(wb.log)))
        return [(0, core.Mismatch("history", "hist:course", None, "alone: %s, with other clients around: %s" % (
            wa.log[n:n + 1], wb.log[n:n + 1])))]
    return []
