"""Minimises a failing trace: python -m dst.shrink IN OUT SECONDS

IN/OUT hold {"property", "trace", ...}. Keeps a candidate when the same class of violation
(operation, field) is still reported."""
import copy
import json
import sys
import time


class Shrinker:
    def __init__(self, prop, trace, cls, knowns, seconds):
        from . import props
        self.props, self.prop, self.cls, self.knowns = props, prop, tuple(cls), knowns
        self.best = trace
        self.deadline = time.time() + seconds
        self.tried = 0

    def fails(self, trace):
        if time.time() > self.deadline:
            return False
        self.tried += 1
        try:
            _, hits, _ = self.props.evaluate(self.prop, trace, self.knowns)
        except Exception:
            return False
        return any((m.op, m.field.split(":")[0]) == self.cls for _, m in hits)

    def attempt(self, trace):
        if self.fails(trace):
            self.best = trace
            return True
        return False

    def shrink_list(self, get, put):
        """delete chunks of a list, halving the chunk size"""
        size = max(1, len(get(self.best)) // 2)
        while size >= 1 and time.time() < self.deadline:
            i = 0
            while i < len(get(self.best)) and time.time() < self.deadline:
                items = get(self.best)
                t = copy.deepcopy(self.best)
                put(t, items[:i] + items[i + size:], i, size)
                if not self.attempt(t):
                    i += size
            size //= 2

    def run(self):
        t = self.best
        if t.get("scen") == "threads":
            k = 0
            while k < len(self.best["tasks"]) and len(self.best["tasks"]) > 1:
                c = copy.deepcopy(self.best)
                del c["tasks"][k]
                if not self.attempt(c):
                    k += 1
            self.shrink_list(lambda t: t["schedule"], lambda t, v, i, n: t.__setitem__("schedule", v))
            for k in range(len(self.best["tasks"])):
                self.shrink_list(lambda t: t["tasks"][k], lambda t, v, i, n: t["tasks"].__setitem__(k, v))
            self.shrink_list(lambda t: t.get("pre", []), lambda t, v, i, n: t.__setitem__("pre", v))
            self.shrink_list(lambda t: t["schedule"], lambda t, v, i, n: t.__setitem__("schedule", v))
        else:
            def put(t, v, i, n):
                t["ops"] = v
                if "cut" in t:
                    t["cut"] -= max(0, min(i + n, t["cut"]) - i) if i < t["cut"] else 0
            if "noise" in t:
                self.shrink_noise()
            self.shrink_list(lambda t: t["ops"], put)
            if "noise" in t:
                self.shrink_noise()
        self.simplify()
        if t.get("scen") != "threads":
            self.shrink_list(lambda t: t["ops"], put)
        return self.best

    def shrink_noise(self):
        self.shrink_list(lambda t: t["noise"]["ops"], lambda t, v, i, n: t["noise"].__setitem__("ops", v))
        self.shrink_list(lambda t: t["noise"].get("who", []), lambda t, v, i, n: t["noise"].__setitem__("who", v))

    def lists(self, t):
        if t.get("scen") == "threads":
            return [t.get("pre", [])] + t["tasks"]
        return [t["ops"]]

    def simplify(self):
        for li, ops in enumerate(self.lists(self.best)):
            for oi in range(len(ops)):
                op = self.lists(self.best)[li][oi]
                for key in list(op):
                    if key in ("op", "tpl", "do", "how", "field", "kind", "ch"):
                        continue
                    if time.time() > self.deadline:
                        return
                    t = copy.deepcopy(self.best)
                    del self.lists(t)[li][oi][key]
                    if not self.attempt(t) and isinstance(op[key], list) and len(op[key]) > 1:
                        t = copy.deepcopy(self.best)
                        self.lists(t)[li][oi][key] = op[key][:1]
                        self.attempt(t)
        for ti in range(len(self.best["cfg"]["tpls"])):
            ci = 0
            while ci < len(self.best["cfg"]["tpls"][ti]["chans"]) and len(self.best["cfg"]["tpls"][ti]["chans"]) > 1:
                if time.time() > self.deadline:
                    return
                t = copy.deepcopy(self.best)
                del t["cfg"]["tpls"][ti]["chans"][ci]
                if not self.attempt(t):
                    ci += 1


def main():
    src, dst, seconds = sys.argv[1], sys.argv[2], float(sys.argv[3])
    job = json.load(open(src))
    from . import known, props
    knowns = known.load(job["property"])
    s = Shrinker(job["property"], job["trace"], job["cls"], knowns, seconds)
    if not s.fails(job["trace"]):
        print("the trace alone does not fail in a fresh process")
        return 3
    best = s.run()
    res, hits, _ = props.evaluate(job["property"], best, knowns)
    n = lambda t: sum(len(x) for x in s.lists(t))
    job.update(trace=best, digest=res.digest(), hits=[[k, repr(m)] for k, m in hits[:20]], log=res.log[-40:],
               minimised={"from_ops": n(job["trace"]), "to_ops": n(best), "executions": s.tried})
    json.dump(job, open(dst, "w"), indent=1)
    return 0


if __name__ == "__main__":
    sys.exit(main())
