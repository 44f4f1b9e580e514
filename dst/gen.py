"""Seeded generation of traces: configurations, operation lists, schedules and faults.

generate(prop, tier, rng, templates) -> trace. Nothing here looks at the repository; a trace
is plain JSON and its execution (run.py) is a pure function of it and the code."""
import copy
import math

NAMES = ["output", "state", "a", "b", "x y", "α", "updates", "probabilities", "0", "zz", "A", "acc.1", "-", "", " a", "output_2"]
BATCHES = [[2], [3], [2, 2], [1], [], [5], [2, 3], [4, 1], [0], [2, 1, 2], [17], [2, 1, 2, 2], [1, 3, 1, 1, 2]]
BATCH_W = [5, 4, 5, 2, 3, 2, 2, 2, 1, 1, 1, 0.7, 0.5]
EPS = [0.875, 0.5, 0.25, 0.125, 0.125, 2.0 ** -6, 2.0 ** -10]
DEP = [1.0, 1.0, 1.0, 0.5, 0.25, 0.75, 0.0, 2.0]
HVALS = [0.0, "tiny", 0.0625, 0.125, 0.125, 0.25, 0.25, 0.25, 0.375, 0.5, 0.5, 0.75, 1.0]
HODD = [1.5, -0.5, 2.0, "inf", "-inf", -0.0625]
EDGES = [["edge", 0.0], ["edge", 2.0 ** -10], ["edge", -(2.0 ** -10)], ["edge", 2.0 ** -6], ["edge", -(2.0 ** -6)],
         ["edge", "ulp"]]
EXCS = ["KeyboardInterrupt", "MemoryError", "RuntimeError"]
# what user callbacks raise
USER_EXCS = EXCS + ["NotImplementedError", "ValueError", "TypeError", "KeyError", "AttributeError", "OSError",
                    "ArithmeticError", "AssertionError", "SystemExit"]


def wchoice(rng, weights):
    items = list(weights.items())
    total = sum(w for _, w in items)
    x = rng.random() * total
    for k, w in items:
        x -= w
        if x < 0:
            return k
    return items[-1][0]


# ---- templates ----------------------------------------------------------------------


def gen_tree(rng, batch, depth=0):
    tails = [[], [2], [3], [2, 2], [1], [2, 1, 2], [0], [1, 2, 1, 2, 1], [129]]
    weights = [4, 5, 2, 3, 1, 1, 0.3, 0.4, 0.3]
    if batch and len(batch) <= 2:
        tails.append(list(batch))       # trailing dims equal to the batch: shows right-broadcasting
        weights.append(4)
    leaf = lambda: {"s": rng.choices(tails, weights)[0]}
    r = rng.random()
    if depth == 0 and rng.random() < 0.03:
        n = rng.choice([11, 13])        # more leaves than digits
        return {"l": [leaf() for _ in range(n)]} if rng.random() < 0.5 else {"d": {"k%d" % i: {"s": [2]} for i in range(n)}}
    if depth >= 2 or r < 0.5:
        return leaf()
    kids = lambda n: [gen_tree(rng, batch, depth + 1) for _ in range(n)]
    kind = rng.choice(["d", "d", "l", "t", "nt", "box", "rec", "none", "single"])
    if kind == "d":
        keys = rng.sample(["p", "q", "A", "b2"], rng.choice([1, 2, 2, 3]))
        return {"d": dict(zip(keys, kids(len(keys))))}
    if kind in ("l", "t"):
        return {kind: kids(rng.choice([1, 2, 2, 3]))}
    if kind == "nt":
        return {"nt": kids(2)}
    if kind == "rec":
        return {"rec": kids(2)}
    if kind == "box":
        return {"box": gen_tree(rng, batch, depth + 1)}
    if kind == "none":
        return {"l": [leaf(), {"none": 1}]}
    return {"l": [leaf()]}


def wide_template(rng):
    """More lanes than a small integer or a half precision number counts."""
    n = rng.choice([129, 257, 300, 2049])
    return {"batch": rng.choice([[n], [n], [1, n]]), "core": "float16", "wide": 1,
            "chans": [{"name": rng.choice(NAMES), "tree": {"s": []}, "dtype": rng.choice(["float32", "float16"]), "how": "direct"}]}


def gen_template(rng, mixed=False, nchans=None, batch=None):
    if nchans is None and batch is None and rng.random() < 0.03:
        return wide_template(rng)
    batch = rng.choices(BATCHES, BATCH_W)[0] if batch is None else batch
    n = nchans or rng.choices([1, 2, 3, 4], [4, 5, 3, 1])[0]
    if nchans is None and rng.random() < 0.04:
        n = rng.choice([7, 11])         # more accumulators than digits in their names
    names = rng.sample(NAMES, n)
    chans = []
    for nm in names:
        tree = gen_tree(rng, batch) if n < 5 else {"s": rng.choice([[], [2]])}
        if rng.random() < 0.03:
            tree = rng.choice([{"d": {}}, {"t": []}, {"d": {"p": {"t": []}, "q": {"s": [2]}}}])     # without leaves
        how = "direct" if rng.random() < 0.6 or _has(tree, ("box", "rec", "none", "nt")) else "shape"
        if rng.random() < (0.5 if mixed else 0.12):
            dt = rng.choice(["float16", "bfloat16", "float64"])
        else:
            dt = "float32"
        chans.append({"name": nm, "tree": tree, "dtype": dt, "how": how})
    if rng.random() < 0.2:      # all alike
        chans = [dict(copy.deepcopy(chans[0]), name=nm) for nm in names]
    t = {"batch": list(batch), "chans": chans}
    if rng.random() < (0.3 if mixed else 0.08):
        t["core"] = rng.choice(["float16", "float16", "float32", "float64"])
    return t


def featured(rng, which):
    """A template with one thing about it that is rarely met by chance; every run set meets them all."""
    small = lambda: rng.choice([[], [2]])
    name = rng.sample(NAMES, len(NAMES))
    chan = lambda tree, dtype="float32", how="direct": {"name": name.pop(), "tree": tree, "dtype": dtype, "how": how}
    leaf = lambda s=None: {"s": small() if s is None else s}
    how = rng.choice(["direct", "shape"])
    batch = rng.choice([[2], [2], [3], [2, 2]])
    which = FEATURES[which % len(FEATURES)]
    t = {"batch": batch, "feature": which}
    if which == "many-leaves":
        same = small()
        t["chans"] = [chan({"l": [leaf(same) for _ in range(rng.choice([11, 12, 13]))]}, how=how)]
    elif which == "no-lanes":
        t["batch"] = rng.choice([[0], [0], [2, 0], [0, 3]])
        t["chans"] = [chan(leaf(), how=how), chan({"d": {"p": leaf([2]), "q": leaf()}})][:rng.choice([1, 2])]
    elif which == "one-lane":
        t["batch"] = rng.choice([[], [], [1], [1, 1]])
        t["chans"] = [chan(leaf(), how=how), chan({"t": [leaf([]), leaf([1])]})][:rng.choice([1, 2])]
    elif which == "rank":
        t["batch"] = rng.choice([[1, 3, 1, 1, 2], [2, 1, 1, 1, 1, 2], [1, 2, 2, 1]])
        t["chans"] = [chan(leaf([2]), how=how), chan(leaf())]
    elif which == "dims":
        t["batch"] = rng.choice([[2], [2, 1]])
        t["chans"] = [chan(leaf([1, 2, 1, 1, 2, 1, 1, 1]), how="shape"), chan(leaf([1, 1, 1, 2, 1, 1, 1, 2, 1]), how=how)][:rng.choice([1, 2])]
    elif which == "double":
        t["core"] = "float64"
        t["chans"] = [chan(leaf(), "float64", how), chan({"d": {"p": leaf([2]), "q": leaf()}}, "float64")][:rng.choice([1, 2])]
    elif which == "half":
        t["core"] = "float16"
        t["chans"] = [chan(leaf(), rng.choice(["float16", "float32", "bfloat16"]), how), chan(leaf(), "float32")]
    elif which == "leafless":
        t["chans"] = [chan(rng.choice([{"d": {}}, {"t": []}, {"l": [{"none": 1}]}])), chan({"d": {"p": {"t": []}, "q": leaf([2])}})]
    elif which == "many-accumulators":
        same = small()
        t["chans"] = [chan(leaf(same), how=how) for _ in range(rng.choice([10, 11, 12]))]
    elif which == "wide":
        return dict(wide_template(rng), feature=which)
    elif which == "deep":
        tree = leaf([2])
        for _ in range(6):
            kind = rng.choice(["d", "l", "t", "nt", "box", "rec"])
            kids = [tree, leaf()] if kind in ("nt", "rec") or rng.random() < 0.4 else [tree]
            tree = {kind: dict(zip("pq", kids)) if kind == "d" else tree if kind == "box" else kids}
        t["chans"] = [chan(tree)]
    elif which == "no-elements":
        t["chans"] = [chan({"d": {"p": leaf([0]), "q": leaf([2])}}, how=how), chan(leaf([2, 0]))]
    elif which == "square":
        n = rng.choice([2, 3])
        t["batch"] = rng.choice([[n], [n, n]])
        t["chans"] = [chan(leaf([n]), how=how), chan(leaf([n, n]))]
    elif which == "shared-node":
        sub = {"d": {"p": leaf([2]), "q": leaf([2])}}
        t["chans"] = [chan({"t": [copy.deepcopy(sub), {"box": sub}]}), chan(copy.deepcopy(sub))]
    elif which == "brain":
        t["chans"] = [chan(leaf([2]), "bfloat16", how), chan(leaf(), "float32")]
    else:
        t["chans"] = [chan(leaf([129]), how=how), chan(leaf([33, 2]))]
    return t


FEATURES = ["many-leaves", "no-lanes", "one-lane", "rank", "dims", "half", "leafless", "many-accumulators", "double", "wide",
            "deep", "no-elements", "square", "shared-node", "brain", "long"]


def rewrap(rng, tree):
    """The same leaves in the same order, in another structure."""
    if "s" in tree:
        return rng.choice([{"l": [tree]}, {"t": [tree]}, {"d": {"p": tree}}, {"l": [{"t": [tree]}]}])
    if "none" in tree:
        return tree
    (kind, kids), = tree.items()
    kids = [kids] if kind == "box" else list(kids.values()) if kind == "d" else list(kids)
    if not kids:
        return tree
    to = rng.choice([k for k in ("l", "t", "d", "nt", "rec") if k != kind and (len(kids) == 2 or k in "ltd")])
    kids = [rewrap(rng, k) if rng.random() < 0.2 else k for k in kids]
    return {to: dict(zip("klmnop", kids)) if to == "d" else kids}


def gen_sibling(rng, of):
    """A template that is easily mistaken for another: the same names, but something else."""
    t = copy.deepcopy(of)
    how = rng.choice(["structure", "structure", "structure", "batch", "dtype", "tail", "order", "core"])
    if how == "structure":
        for ch in t["chans"]:
            ch["tree"] = rewrap(rng, ch["tree"])
            if _has(ch["tree"], ("box", "rec", "none", "nt")):
                ch["how"] = "direct"
    elif how == "batch":
        t["batch"] = [n % 4 + 1 for n in t["batch"]]
    elif how == "dtype":
        for ch in t["chans"]:
            ch["dtype"] = rng.choice([d for d in ("float32", "float16", "bfloat16") if d != ch["dtype"]])
    elif how == "tail":
        def longer(tree):
            if isinstance(tree, list):
                for sub in tree:
                    longer(sub)
            elif isinstance(tree, dict):
                for key, sub in tree.items():
                    if key == "s" and isinstance(sub, list):
                        tree[key] = [2] if not sub else []
                    else:
                        longer(sub)
        for ch in t["chans"]:
            longer(ch["tree"])
    elif how == "order":
        t["chans"].reverse()
    elif "core" in t:
        del t["core"]
    else:
        t["core"] = "float16"
    t["sib"] = how
    return t


def _has(tree, kinds):
    if any(k in tree for k in kinds):
        return True
    for v in tree.values():
        if isinstance(v, dict):
            subs = v.values() if not any(k in v for k in ("s", "d", "l", "t", "nt", "box", "rec", "none")) else [v]
        elif isinstance(v, list) and v and isinstance(v[0], dict):
            subs = v
        else:
            subs = []
        if any(_has(s, kinds) for s in subs):
            return True
    return False


# ---- operations ---------------------------------------------------------------------


class G:
    """Parameters of one run (swarm style: drawn per run)."""

    def __init__(self, rng, prop, regime, tpls, gran, prof):
        self.rng, self.prop, self.regime, self.tpls, self.gran = rng, prop, regime, tpls, gran
        self.prof = prof
        self.branch = prof.get("branch", rng.choice([0.0, 0.15, 0.4]))
        self.nokeep = prof.get("nokeep", rng.choice([0.0, 0.1, 0.3]))
        self.edge = prof.get("edge", rng.choice([0.1, 0.3, 0.6]))
        self.odd = rng.choice([0.0, 0.1, 0.25])
        self.inj = prof.get("inj", 0.0)
        self.who = prof.get("who", rng.choice([0.0, 0.0, 0.0, 0.1]))
        self.clock = rng.choice([0.0, 0.0, 0.2])
        modes = dict(prof.get("modes", {"eager": 10, "nojit": 1}))
        self.modes = modes
        self.pace = rng.choice(["slow", "slow", "fast", "mixed"])

    def mode(self):
        return wchoice(self.rng, self.modes)

    def sel(self, op, key="c"):
        if self.rng.random() < self.branch:
            op[key] = self.rng.randint(1, 9)
        return op

    def h(self):
        rng = self.rng
        n = rng.choice([1, 2, 3, 5])
        out = []
        for _ in range(n):
            r = rng.random()
            if r < self.odd:
                out.append(rng.choice(HODD))
            elif r < self.odd + self.edge and self.regime == "dyadic":
                out.append(rng.choice(EDGES))
            elif self.regime != "dyadic":
                out.append(round(rng.random() * (0.5 if self.pace == "slow" else 1.1), 6))
            else:
                v = rng.choice(HVALS)
                if self.pace == "slow" and v != "tiny" and v > 0.375:
                    v = 0.125
                out.append(v)
        if any("wide" in t for t in self.tpls) and rng.random() < 0.5:
            out = [rng.choice([1.0, 1.0, 0.5]), ["solo", rng.randrange(1 << 12), rng.choice([0.0, 0.125, 1.0])]]
        return out

    def inject(self, op):
        if self.inj and self.rng.random() < self.inj:
            top = self.prof.get("inj_top", 700 if self.gran == "inst" else 150)
            if op["op"] in ("set", "drive", "flax"):
                top *= 6
            op["inj"] = {"k": int(math.exp(self.rng.random() * math.log(top))), "exc": self.rng.choice(EXCS)}
            if self.rng.random() < 0.3:
                op["inj"]["other"] = 1
        if self.clock and self.rng.random() < self.clock:
            op["clock"] = self.rng.choice([0.01, 1.0, 61.0, 3600.0, 1e7, -1.0, -3600.0])
        if self.who and self.rng.random() < self.who:
            op["who"] = 1
        return op

    def op(self, kind):
        rng = self.rng
        op = {"op": kind}
        vs = rng.randint(1, 10 ** 6)
        mode = self.mode()
        if kind == "newb":
            op["tpl"] = rng.randrange(len(self.tpls))
            op["eps"] = rng.choice(EPS) if self.regime == "dyadic" else round(rng.uniform(0.001, 0.6), 5)
            op["dep"] = rng.choice(DEP) if self.regime == "dyadic" else round(rng.uniform(0.2, 1.5), 5)
            op["int"] = rng.randint(0, 1)
            op["default_core"] = rng.randint(0, 1)
            if rng.random() < (0.3 if self.prop == "C18" else 0.05):
                op["spare"] = rng.randint(1, 3)
            if rng.random() < self.prof.get("deparr", 0.12):
                op["deparr"] = 1
        elif kind == "newbbad":
            op.update(tpl=rng.randrange(len(self.tpls)), kind=rng.randrange(5))
        elif kind == "def":
            op.update(ch=rng.randrange(6), vs=vs, fill=rng.choice([0.0, 0.0, 1.5, -2.0, 1, 0, -3]))
            if self.prop == "C18" and rng.random() < 0.15:
                op["fill"] = rng.choice(["inf", "-inf", "nan", "-0.0", True])
            if rng.random() < 0.1:
                op["warn"] = 1
            elif rng.random() < 0.3:
                op["spare"] = 1
            self.sel(op, "b")
        elif kind == "defbad":
            op.update(ch=rng.randrange(6), kind=rng.randrange(12), at=rng.randrange(4), existing=rng.randint(0, 1))
            self.sel(op, "b")
        elif kind == "build":
            self.sel(op, "b")
        elif kind == "cache":
            op.update(ch=rng.randrange(6), vs=vs)
            self.sel(op)
            if mode != "eager":
                op["mode"] = mode
            if rng.random() < 0.1:
                op["np"] = 1
            if rng.random() < (0.15 if self.prop in ("C14", "C16") else 0.05) and self.regime == "dyadic":
                op["own"] = rng.choice([1, 2])
            if rng.random() < self.prof.get("udtype", 0.06):
                op["udtype"] = rng.choice(["float16", "bfloat16", "float32", "int32"])
        elif kind == "cachewrong":
            op.update(ch=rng.randrange(6), kind=rng.randrange(8), at=rng.randrange(8), h=self.h())
            self.sel(op)
        elif kind in ("cachebad",):
            self.sel(op)
        elif kind == "iterate":
            op["h"] = self.h()
            self.sel(op)
            if mode != "eager":
                op["mode"] = mode
        elif kind == "iterbad":
            op["kind"] = rng.randrange(3)
            self.sel(op)
        elif kind == "step":
            op.update(h=self.h(), vs=vs, order=[rng.randrange(6) for _ in range(rng.choice([0, 2, 3]))])
            self.sel(op)
            if rng.random() < 0.15:
                op["alias"] = 1
            if rng.random() < 0.05 and self.regime == "dyadic":
                op["own"] = rng.choice([1, 2])
            if mode != "eager":
                op["mode"] = mode
            if rng.random() < self.prof.get("udtype", 0.06):
                op["udtype"] = rng.choice(["float16", "bfloat16", "float32", "int32"])
            if rng.random() < self.prof.get("poison", 0.0):
                op["poison"] = [[rng.randrange(8), rng.choice(["nan", "inf", "-inf", "big"])]
                                for _ in range(rng.choice([1, 2]))]
            if self.inj:
                op["inj_sub"] = rng.randrange(4)
        elif kind == "reset":
            self.sel(op)
            if rng.random() < (0.12 if self.prop == "C05" else 0.02):
                op["lost"] = rng.randint(1, 60)
            if mode != "eager":
                op["mode"] = mode
        elif kind == "flags":
            self.sel(op)
            if rng.random() < 0.2:
                op["kind"] = "viewer"
        elif kind == "getitem":
            op["ch"] = rng.randrange(6)
            self.sel(op)
        elif kind == "setattr":
            op.update(kind=rng.randrange(4), attr=rng.randrange(12))
        elif kind == "view":
            self.sel(op)
        elif kind == "mask":
            op.update(how=rng.choice(["mask", "mask", "halted", "unhalted"]), bits=rng.getrandbits(16),
                      keep=int(rng.random() < 0.3))
            self.sel(op, "v")
            self.sel(op)
            if mode != "eager":
                op["mode"] = mode
        elif kind == "maskbad":
            op["kind"] = rng.randrange(8)
        elif kind == "xform":
            op.update(fn=rng.randrange(5), at=rng.randrange(9), keep=int(rng.random() < 0.3),
                      exc=rng.choice(["OSError", "KeyboardInterrupt", "ValueError", "MemoryError"]))
            self.sel(op, "v")
        elif kind == "edit":
            op.update(kind=rng.choice([0, 0, 1, 1, 2, 3]), silent=int(rng.random() < 0.3), badmode=rng.randrange(8))
            self.sel(op)
        elif kind == "set":
            op.update(field=rng.randrange(8), vs=vs, high=int(rng.random() < 0.5))
            self.sel(op, "e")
            if rng.random() < 0.2:
                op["bound"] = rng.choice([1, 2])
            if rng.random() < 0.15:
                op["big"] = rng.choice([127, 128, 255, 256, 1023, 2047, 32767, 65535, 1 << 20])
            if rng.random() < self.prof.get("setbad", 0.25):
                op["bad"] = rng.randint(1, 64)
                op["none"] = int(rng.random() < 0.1)
            if mode != "eager":
                op["mode"] = mode
        elif kind == "srep":
            op.update(fields=rng.choice([0, 0] + list(range(14)) + ([14] * 4 if self.prop == "C17" else [])), vs=vs, ch=rng.randrange(6))
            self.sel(op)
        elif kind == "ebuild":
            self.sel(op, "e")
        elif kind == "rt":
            op.update(kind=rng.choice([0, 0, 0, 1, 2, 3, 4]), how=rng.choice(
                ["tree", "tree", "leaves", "leaves", "save", "save", "pickle", "pickle", "jit", "map", "put", "deepcopy", "deepcopy",
                 "move", "shard", "opaque", "abstract", "paths"]))
            self.sel(op)
        elif kind == "ckpt":
            op["how"] = rng.choice(["leaves", "pickle"])
            self.sel(op)
        elif kind == "crash":
            op.update(how=rng.choice(["leaves", "pickle"]), fresh=int(rng.random() < 0.3))
        elif kind == "prog":
            how = rng.choice(self.prof.get("progs", ["jit", "scan", "while", "vmap", "vmap2", "pmap", "cond", "long"]))
            op.update(how=how, len=how, hs=[self.h() for _ in range(rng.choice([1, 2, 4]))], vs=vs,
                      reset=int(rng.random() < 0.3))
            if how == "cond":
                op["go"] = rng.choice([1, 5, 6, 7, 9, 10, 11])
            self.sel(op)
        elif kind == "grad":
            how = rng.choice(["eager", "eager", "eager", "fwd", "fwd", "jit", "scan", "scan", "drive"])
            n = rng.choice([1, 3, 5])
            op.update(how=how, n=n, hs=[self.h() for _ in range(rng.choice([1, 2, 4]))], vs=vs,
                      resets=rng.choice([0, 0, 1, 1 << rng.randrange(n)]), view=rng.choice([0, 0, 1, 2]),
                      mid=int(rng.random() < 0.2))
            if rng.random() < 0.15:
                op["remat"] = 1
            self.sel(op)
        elif kind == "drive":
            self.gen_drive(op, vs)
        elif kind == "flax":
            self.gen_flax(op, vs)
        if kind not in ("newbbad", "defbad", "cachebad", "cachewrong", "iterbad", "maskbad") and \
                rng.random() < self.nokeep:
            op["keep"] = 0
        return self.inject(op)

    def ops(self, kind):
        """One operation, or the few that together change the statistics of a controller."""
        if kind != "tune":
            return [self.op(kind)]
        rng = self.rng
        out = [self.op("edit")]
        out[0].update(kind=rng.choice([0, 0, 0, 3]))
        for _ in range(rng.choice([1, 1, 2, 3])):
            s = self.op("set")
            s.pop("bad", None)
            s.pop("none", None)
            s.pop("e", None)
            s["field"] = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6])
            out.append(s)
        out.append(self.op("ebuild"))
        out[-1].pop("e", None)
        for o in out:
            o.pop("keep", None)
        return out

    def gen_drive(self, op, vs):
        rng = self.rng
        dm = self.prof.get("drive_modes", {"nojit": 8, "eager": 1.2, "prog": 0.6, "vmap": 0.4})
        op.update(tpl=rng.randrange(len(self.tpls)), mode=wchoice(rng, dm), vs=vs, dvs=rng.choice([0, vs]),
                  hs=[self.h() for _ in range(rng.choice([1, 2, 4, 6]))],
                  steps=rng.choice([1, 3, 6, 10]), max=rng.choice([0, 1, 2, 3, 4, 6, 10, 10, 14]),
                  dep=rng.choice(DEP) if self.regime == "dyadic" else 0.9,
                  eps=rng.choice(EPS) if self.regime == "dyadic" else 0.07, state=rng.randrange(5))
        if rng.random() < 0.25:
            op["start"] = 1
            self.sel(op)
        for key, p in (("deparr", 0.12), ("lazy", 0.3), ("args", 0.3), ("kw", 0.2), ("nest", 0.12), ("pair", 0.15)):
            if rng.random() < p:
                op[key] = 1
        if rng.random() < 0.2:
            op["check"] = 0
        op["order"] = rng.randrange(3)
        if rng.random() < 0.12:
            op["max"] = rng.choice([-1, -7, 2.5, 3.0, 1e9, "inf"])
        if rng.random() < 0.25:
            op["spare"] = 1
        if "args" in op:
            op["args"] = rng.choice([1, 1, 2, 3, 4])
        if rng.random() < 0.15:
            op["idle"] = rng.choice(["reset", "edit", "load", "twice", "only-reset", "only-edit", "mixed", "stay"])
        if op["mode"] != "nojit" and rng.random() < 0.25:
            op["max"] = rng.choice([127, 130, 256, 1000, 40000, 2 ** 31 - 1])
            op["steps"] = rng.choice([1, 3])
            if rng.random() < (0.3 if self.prop == "C12" else 0.05):
                op["long"] = 1
        if op["mode"] == "prog" and rng.random() < 0.5:
            op["traced"] = 1
        if op["mode"] == "vmap":
            if not isinstance(op["max"], int):
                op["max"] = 5
            op.update(more=rng.randrange(2), at=rng.randrange(3), jit=rng.randrange(2))
        r = rng.random()
        if r < self.prof.get("drive_fault", 0.25):
            where = rng.choice(["run", "run", "run", "make", "lazy"])
            op["fault"] = {"where": where, "k": 1 if where != "run" or op["mode"] != "nojit" else rng.choice([1, 2, 3, 5]),
                           "exc": rng.choice(USER_EXCS)}
        elif r < self.prof.get("drive_fault", 0.25) + self.prof.get("drive_byz", 0.0):
            op["check"] = 1
            op.pop("lazy", None)
            op.pop("idle", None)
            if rng.random() < 0.3:
                op["byz"] = {"where": "make", "k": 1, "kind": rng.choice(
                    ["none", "dict", "builder", "state", "viewer", "empty", "empty", "tuple", "class"])}
                if op["byz"]["kind"] == "empty" and rng.random() < 0.4:
                    op["check"] = 0
            else:
                op["byz"] = {"where": "run", "k": rng.choice([1, 1, 2, 3]), "kind": rng.choice(
                    ["list", "ctrl", "none", "one", "three", "zero", "swapped", "builder", "statefirst", "same", "same",
                     "dict", "viewer", "nonefirst", "cached_all", "cached_some", "recached", "cached_some", "recached"])}
                if op["mode"] != "nojit":
                    op["byz"]["k"] = 1
                if op["byz"]["kind"] in ("same", "list") and rng.random() < 0.4:
                    op["check"] = 0

    def gen_flax(self, op, vs):
        rng = self.rng
        mode = wchoice(rng, {"nojit": 6, "eager": 2, "prog": 1})
        op.update(do=rng.choice(["init", "apply", "apply", "apply", "apply"]), mode=mode, vs=vs,
                  hs=[self.h() for _ in range(rng.choice([1, 2, 4]))], steps=rng.choice([1, 3, 5]),
                  max=rng.choice([0, 1, 3, 5, 8]), dep=rng.choice([1.0, 1.0, 0.5, 0.25, 0.75]))
        if op["do"] == "init":
            op.update(nested=int(rng.random() < 0.4), outer=int(rng.random() < 0.4), key=rng.randrange(4),
                      early=int(rng.random() < 0.25), create=int(rng.random() < 0.25), batch=rng.choice([[2], [2, 2], [3], []]), W=rng.choice([2, 3]), eps=rng.choice([0.125, 0.25, 2.0 ** -6]))
        else:
            op.update(params=rng.choice([0, 1, 2, 3, vs]), fresh=rng.randint(0, 1), mutable=int(rng.random() < 0.25))
        if mode == "prog" and rng.random() < 0.5:
            op["traced"] = 1
        if rng.random() < 0.03:
            op["do"] = "nosetup"
        if rng.random() < 0.2:
            op["fault"] = {"k": rng.choice([1, 2, 3]) if mode == "nojit" else 1, "exc": rng.choice(EXCS)}


BASE = {"step": 8, "cache": 3, "iterate": 3, "reset": 2, "flags": 1, "build": 0.3, "newb": 0.2}
FULL = {"step": 6, "cache": 3, "iterate": 3, "reset": 3, "flags": 1, "getitem": 0.5, "view": 1, "mask": 2, "maskbad": 0.3,
        "xform": 1.5, "edit": 1, "set": 1.5, "ebuild": 1, "rt": 1, "cachebad": 0.5, "cachewrong": 0.5, "iterbad": 0.5,
        "newb": 0.6, "def": 1.5, "build": 1, "defbad": 0.7, "newbbad": 0.2, "setattr": 0.9, "drive": 0.5, "srep": 0.6}

PROFILES = {
    "C01": dict(ops=dict(BASE, tune=0.4, srep=0.3, edit=0.4, set=0.7, ebuild=0.5, rt=0.3, prog=0.25, drive=0.2), modes={"eager": 10, "nojit": 1, "jit": 1.5},
                progs=["jit", "scan", "long"], marathon=0.06),
    "C02": dict(ops=dict(BASE, tune=1.2, srep=0.6, flags=4, edit=0.4, set=0.7, ebuild=0.5, crash=0.1), modes={"eager": 10, "nojit": 1, "jit": 1.5},
                edge=0.55, marathon=0.06),
    "C03": dict(ops=dict(BASE, tune=0.8, srep=0.5, step=10, reset=0.7, edit=0.8, set=1.4, ebuild=0.9, rt=0.3), poison=0.25, edge=0.4,
                modes={"eager": 10, "nojit": 1, "jit": 1}, setbad=0.05),
    "C04": dict(ops={"tune": 0.4, "step": 3, "cache": 9, "iterate": 5, "reset": 3, "flags": 4, "cachebad": 1, "cachewrong": 2,
                     "iterbad": 1, "edit": 0.3, "set": 0.7, "ebuild": 0.4, "rt": 0.3, "newb": 0.1, "build": 0.2},
                modes={"eager": 10, "nojit": 1, "jit": 1}, branch=0.2),
    "C05": dict(ops=dict(BASE, tune=0.8, srep=0.5, reset=8, edit=0.7, set=1.4, ebuild=0.9, rt=0.3), edge=0.4,
                modes={"eager": 10, "nojit": 1, "jit": 1.5}, setbad=0.05),
    "C06": dict(ops=dict(FULL, tune=0.4, setattr=2), branch=0.35, nokeep=0.25, who=0.1, modes={"eager": 10, "nojit": 1}),
    "C07": dict(ops=dict(FULL, tune=0.3), branch=0.2, inj=0.45, who=0.12, modes={"eager": 10, "nojit": 0.5}, drive_fault=0.3),
    "C08": dict(ops=dict(FULL, tune=0.3), branch=0.5, modes={"eager": 1}),
    "C09": dict(ops={"tune": 0.5, "srep": 0.6, "step": 6, "cache": 3, "iterate": 2, "reset": 1.5, "rt": 7, "ckpt": 2, "crash": 2.5, "gc": 0.3,
                     "view": 0.7, "edit": 0.7, "set": 0.7, "newb": 0.5, "def": 0.7, "build": 0.5, "flags": 0.5},
                modes={"eager": 1}),
    "C10": dict(ops={"tune": 0.6, "srep": 0.4, "step": 4, "cache": 3, "iterate": 3, "reset": 3, "mask": 1.5, "edit": 0.5, "set": 1.2, "ebuild": 0.7,
                     "prog": 5, "rt": 0.5, "flags": 0.7, "view": 0.4, "drive": 0.6, "iterbad": 0.2},
                modes={"eager": 2, "nojit": 2, "jit": 4}, drive_modes={"nojit": 2, "eager": 2, "prog": 1, "vmap": 1}, drive_fault=0.0),
    "C11": dict(ops={"tune": 0.6, "srep": 0.3, "step": 8, "cache": 2, "iterate": 2, "reset": 3, "view": 1, "mask": 1.5, "xform": 0.5, "edit": 0.6,
                     "set": 1.2, "ebuild": 0.7, "rt": 0.4, "prog": 0.3, "newb": 0.1}, modes={"eager": 10, "nojit": 1, "jit": 1},
                progs=["jit", "scan", "vmap"], setbad=0.1, branch=0.15),
    "C12": dict(ops={"tune": 0.6, "drive": 9, "step": 1.5, "reset": 0.7, "edit": 0.2, "set": 0.3, "ebuild": 0.2}, drive_fault=0.3,
                modes={"eager": 1}, edge=0.4, lens=(3, 8)),
    "C13": dict(ops={"drive": 9, "step": 0.7, "reset": 0.3}, drive_fault=0.0, drive_byz=0.65, modes={"eager": 1}, lens=(3, 8)),
    "C14": dict(ops={"tune": 0.6, "step": 4, "cache": 2, "iterate": 1, "reset": 0.7, "view": 4, "mask": 7, "maskbad": 1, "xform": 5,
                     "edit": 0.4, "set": 0.5, "ebuild": 0.4, "rt": 0.3, "flags": 0.3}, poison=0.3,
                modes={"eager": 8, "nojit": 1, "jit": 1}),
    "C15": dict(ops={"step": 3, "srep": 1.5, "cache": 1, "iterate": 1, "reset": 1.5, "edit": 3, "set": 9, "ebuild": 2, "rt": 0.4, "flags": 0.5},
                setbad=0.4, modes={"eager": 8, "nojit": 1, "jit": 0.6}),
    "C16": dict(ops={"tune": 0.6, "srep": 0.3, "step": 8, "cache": 3, "iterate": 2, "reset": 2.5, "view": 1, "mask": 1, "edit": 0.6,
                     "set": 1.2, "ebuild": 0.7, "rt": 0.7, "prog": 0.3, "newb": 0.1, "build": 0.2, "def": 0.2},
                modes={"eager": 10, "nojit": 1, "jit": 1}, progs=["jit", "scan"], setbad=0.1, branch=0.15),
    "C17": dict(ops=dict(BASE, tune=0.4, srep=0.4, prog=0.6, view=0.5, mask=1, xform=0.5, edit=0.5, set=0.8, ebuild=0.5, rt=0.7, drive=0.4),
                modes={"eager": 10, "nojit": 1, "jit": 1.5}, mixed=1, udtype=0.4, deparr=0.4, setbad=0.1,
                drive_modes={"nojit": 5, "eager": 1, "prog": 0.3}),
    "C18": dict(ops={"newb": 2, "newbbad": 1.5, "def": 9, "defbad": 5, "build": 4, "rt": 0.7, "step": 1, "setattr": 0.3},
                branch=0.35, modes={"eager": 1}),
    "C21": dict(ops={"tune": 0.6, "srep": 0.5, "grad": 7, "step": 4, "reset": 1.5, "edit": 0.6, "set": 1.0, "ebuild": 0.6, "rt": 0.5, "newb": 0.1},
                modes={"eager": 8, "nojit": 1, "jit": 0.5}, edge=0.4, setbad=0.05, lens=(5, 18)),
    "C22": dict(ops=dict(FULL, tune=0.4, grad=0.1, prog=0.1, drive=0.8, set=3, edit=1.5), branch=0.2, modes={"eager": 10, "nojit": 1}, drive_fault=0.15,
                drive_byz=0.3, setbad=0.4, drive_modes={"nojit": 8, "eager": 0.5}, progs=["long", "scan"], lens=(6, 22)),
    "C19": dict(ops={"flax": 1}, modes={"eager": 1}, lens=(2, 6), edge=0.4),
}


def opening(g, n_build=None, weights=None):
    """Build one or two controllers first, so that most operations have something to act on."""
    rng = g.rng
    ops = []
    alike = len(g.tpls) == 2 and any(t.get("sib") for t in g.tpls) and rng.random() < 0.6
    for nth in range(2 if alike else n_build or rng.choice([1, 1, 2])):
        b = g.op("newb")
        if alike:
            b["tpl"] = nth
        b.pop("inj", None)
        b.pop("keep", None)
        ops.append(b)
        nch = len(g.tpls[b["tpl"]]["chans"])
        order = list(range(nch))
        rng.shuffle(order)
        if nch > 1 and rng.random() < 0.15:
            order = order[:-1]
        for ch in order:
            d = g.op("def")
            d.update(ch=ch)
            for k in ("inj", "keep", "b", "warn"):
                d.pop(k, None)
            ops.append(d)
        ops.append({"op": "build"})
        if alike and weights:
            # what is remembered of the one must not leak into the other
            for _ in range(rng.choice([1, 2, 4])):
                ops += g.ops(wchoice(rng, weights))
    return ops


def aftermath(g, op):
    """After an operation that was broken off: is the library still on its guard?"""
    rng = g.rng
    probe = g.op({"set": "set", "def": "defbad", "newb": "newbbad", "cache": "cachewrong", "step": rng.choice(["cachewrong", "iterbad"]),
                  "iterate": "iterbad", "mask": "maskbad", "drive": "drive"}.get(op["op"], op["op"]))
    probe.pop("inj", None)
    probe.pop("fault", None)
    if probe["op"] == "set":
        if rng.random() < 0.5:
            probe["field"] = op["field"]
        if "e" in op:
            probe["e"] = op["e"]
        probe["bad"] = rng.randint(1, 64)
    elif probe["op"] == "drive":
        probe.update(check=1, mode="nojit", max=rng.choice([2, 5, 10]),
                     byz={"where": "run", "k": 1, "kind": rng.choice(["list", "ctrl", "one", "same", "cached_all", "builder"])})
        probe.pop("lazy", None)
    return probe


def gen_noise(rng, regime, tpls, gran, main):
    """What else goes on in the process during the history of operations main."""
    n = len(main)
    regime = rng.choice([regime, "general", "dyadic"])
    mine = list(tpls) + [gen_sibling(rng, rng.choice(tpls)) for _ in range(rng.choice([1, 1, 2]))]
    g = G(rng, "C07", regime, mine, gran, dict(PROFILES["C07"], inj=rng.choice([0.0, 0.15, 0.5]), modes={"eager": 10, "nojit": 1},
                                             drive_modes={"nojit": 1}))
    g.clock = 0.0
    weights = {k: w * rng.choice([0.5, 1, 2]) for k, w in FULL.items()}
    items = []
    todo = []
    if rng.random() < 0.8:
        for _ in range(rng.choice([1, 1, 2])):
            todo += opening(g, n_build=1)
    if rng.random() < 0.3:
        # another client did exactly the same before
        todo = copy.deepcopy(main)
        if rng.random() < 0.3:
            todo = todo[:rng.randint(1, n)]
        return {"cfg": {"tpls": mine, "regime": regime}, "ops": [[0, op] for op in todo], "later": 0.0}
    echo = rng.choice([0.0, 0.3, 0.6])
    for _ in range(rng.randint(2, 18)):
        if rng.random() < echo:
            # another client does much the same
            op = copy.deepcopy(rng.choice(main))
            if rng.random() < 0.4:
                for key in ("bad", "byz", "fault", "none"):
                    op.pop(key, None)
            if "vs" in op and rng.random() < 0.5:
                op["vs"] = rng.randint(1, 10 ** 6)
            todo.append(op)
        else:
            todo += g.ops(wchoice(rng, weights))
    # all of it before, or spread over the history
    at = 0
    early = rng.random() < 0.4
    for op in todo:
        if not early and rng.random() < 0.45:
            at += rng.randint(0, 3)
        items.append([at, op])
        r = rng.random()
        if r < 0.06:
            items.append([at, {"op": "adopt", "kind": rng.choice(["controller", "controller", "builder", "viewer", "editor"])}])
        elif r < 0.09:
            items.append([at, {"op": "drop"}])
        elif r < 0.11:
            items.append([at, {"op": "entropy", "seed": rng.randrange(1000)}])
        elif r < 0.14:
            items.append([at, {"op": "clock", "by": rng.choice([0.01, 61.0, 3600.0, 1e7, -3600.0])}])
        elif r < 0.145:
            items.append([at, {"op": "gc"}])
    noise = {"cfg": {"tpls": mine, "regime": regime}, "ops": items, "later": rng.choice([0.0, 0.0, 3600.0, 1e7])}
    if rng.random() < 0.2:
        noise["cfg"]["share"] = 1
    if rng.random() < 0.4:
        noise["who"] = sorted(rng.sample(range(n), min(n, rng.randint(1, 8))))
    return noise


def generate(prop, tier, rng, templates, run_no=0):
    prof = PROFILES[prop]
    regime = "general" if rng.random() < 0.2 and prop not in ("C11", "C12", "C13", "C16", "C19") else "dyadic"
    k = rng.choice([1, 1, 2])
    tpls = rng.sample(templates, min(k, len(templates)))
    pairs = [[a, b] for a, b in zip(templates, templates[1:]) if b.get("sib")]
    if pairs and rng.random() < 0.3:
        tpls = list(rng.choice(pairs))
        rng.shuffle(tpls)
    gran = "inst" if rng.random() < 0.5 else "line"
    g = G(rng, prop, regime, tpls, gran, prof)
    lo, hi = prof.get("lens", (8, 34))
    if tier == "thorough" and rng.random() < 0.3:
        hi *= 2
    n = rng.randint(lo, hi)
    weights = {k: w * rng.choice([0, 0.5, 1, 1, 1, 2]) if k not in ("step", "drive", "flax", "grad") else w
               for k, w in prof["ops"].items()
               if not (regime == "general" and k in ("prog", "drive"))}
    trace = {"v": 1, "prop": prop, "gran": gran, "cfg": {"tpls": tpls, "regime": regime}, "scen": "hist"}
    if rng.random() < 0.25:
        trace["cfg"]["share"] = 1
    trace["cfg"]["fine"] = rng.choice(["h", "u"])
    ops = [] if prop in ("C19",) else opening(g, weights=weights if prop != "C08" else None)
    if prop == "C08":
        trace["scen"] = "threads"
        trace["pre"] = ops + [g.op(wchoice(rng, {"step": 5, "cache": 2, "reset": 1, "view": 1, "edit": 1}))
                              for _ in range(rng.randint(0, 5))]
        nt = rng.choice([2, 2, 3, 4])
        trace["tasks"] = [sum((g.ops(wchoice(rng, weights)) for _ in range(rng.randint(2, 7))), []) for _ in range(nt)]
        for t in trace["tasks"]:
            for op in t:
                if op["op"] == "drive":
                    op["mode"] = "nojit"
                    op["max"] = rng.choice([0, 1, 2, 3, 4])
                    op.pop("nest", None)
        sched = []
        style = rng.choice(["fine", "coarse", "mixed", "pct"])
        scale = 8 if gran == "inst" else 2
        for _ in range(rng.randint(4, 160)):
            if style == "fine":
                q = rng.randint(1, 6 * scale)
            elif style == "coarse":
                q = rng.randint(20, 120 * scale)
            elif style == "mixed":
                q = int(math.exp(rng.random() * math.log(120 * scale)))
            else:
                q = rng.randint(1, 400 * scale)
            sched.append([q, rng.randrange(12)])
        if style == "pct":
            sched = sched[:rng.randint(2, 8)]
        trace["schedule"] = sched
        return trace
    if prof.get("marathon") and rng.random() < prof["marathon"]:
        # one long fuse: many small steps
        small = [rng.choice([0.0, "tiny", 2.0 ** -6, 2.0 ** -5, 0.0625]) for _ in range(rng.choice([1, 3]))]
        ops[0]["dep"] = rng.choice([1.0, 0.5, 0.25])
        m = rng.randint(60, 140 if tier == "quick" else 300)
        for i in range(m):
            ops.append({"op": "step", "h": small, "vs": rng.randint(1, 10 ** 6)})
            if i % 40 == 39:
                ops.append({"op": "flags"})
        trace["ops"] = ops
        trace["marathon"] = 1
        return trace
    if prop == "C19":
        g.edge = 0.3
        first = g.op("flax")
        while first["do"] != "init":
            first = g.op("flax")
        ops = [first]
        if first.get("mode") == "nojit" and rng.random() < 0.3:
            g.inj = 0.3
        if run_no % 40 == 7:
            # known finding K1 (inline sub-modules in a compiled loop): keep an eye on it
            first.update(nested=2, mode="eager")
            first.pop("fault", None)
    for _ in range(n):
        ops += g.ops(wchoice(rng, weights))
        if ops[-1]["op"] == "cache" and ops[-1].get("own") and rng.random() < 0.5:
            ops += [{"op": "view"}, {"op": "mask", "how": "mask", "bits": rng.getrandbits(16)}]
        if prop == "C07" and ("inj" in ops[-1] or "fault" in ops[-1]) and rng.random() < 0.3:
            ops.append(aftermath(g, ops[-1]))
    trace["ops"] = ops
    if prop == "C11":
        trace["scen"] = "lanes"
        trace["twin"] = {"lane": rng.randrange(16), "salt": rng.randint(1, 99), "poison": rng.choice([0, 0, 1, 2])}
    elif prop == "C16":
        trace["scen"] = "chans"
        trace["twin"] = {"focus": rng.randrange(4), "salt": rng.randint(1, 99), "poison": rng.choice([0, 0, 1]),
                         "rename": rng.choice([0, 1, 1]), "extra": rng.choice([0, 1, 1, 2]), "where": rng.choice(["first", "last"]),
                         "names": rng.sample(NAMES, 8)}
    elif prop == "C22":
        trace["scen"] = "noise"
        trace["noise"] = gen_noise(rng, regime, tpls, gran, ops)
        if rng.random() < 0.015:
            trace["hashseed"] = rng.randint(1, 1000)
    elif prop == "C09" and rng.random() < 0.012:
        trace["scen"] = "resume"
        trace["ops"] = [dict(o) for o in ops if o["op"] not in ("crash", "ckpt", "gc")]
        for o in trace["ops"]:
            o.pop("c", None)
        trace["cut"] = rng.randint(3, len(trace["ops"]) - 1)
        trace["hashseed"] = rng.randint(1, 1000)
    return trace
