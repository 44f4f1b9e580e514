"""The deterministic sequence of runs of one worker: (seed, property, worker) -> traces."""
import random

from . import gen

NEW_AT = [0, 0, 10, 25, 50, 90, 150, 220, 300, 400]
WINDOW = 4


def environment(seed, worker):
    """What the interpreter of this worker is started with."""
    env = {"PYTHONHASHSEED": str((seed * 1009 + worker * 31) % 100000), "JAX_ENABLE_X64": "1" if worker % 8 == 7 else "0"}
    if worker % 8 == 6:
        env["PYTHONOPTIMIZE"] = "1"     # assertions are stripped
    return env


class Session:
    def __init__(self, seed, prop, worker, tier):
        self.seed, self.prop, self.worker, self.tier = seed, prop, worker, tier
        self.templates = []

    def template(self, j):
        rng = random.Random("%s:%s:%s:tpl:%d" % (self.seed, self.prop, self.worker, j))
        if j == 0 and self.worker % 8 == 7:
            return gen.featured(rng, gen.FEATURES.index("double"))
        if j in (1, 3, 5):
            return gen.featured(rng, self.seed + self.worker + 8 * (j // 2))
        if j and rng.random() < 0.35 and "wide" not in self.templates[j - 1]:
            return gen.gen_sibling(rng, self.templates[j - 1])
        return gen.gen_template(rng, mixed=self.prop == "C17")

    def trace(self, i):
        n = sum(1 for at in NEW_AT if at <= i) + max(0, (i - 400) // 100)
        while len(self.templates) < n:
            self.templates.append(self.template(len(self.templates)))
        rng = random.Random("%s:%s:%s:%d" % (self.seed, self.prop, self.worker, i))
        t = gen.generate(self.prop, self.tier, rng, self.templates[-WINDOW:], i)
        t["id"] = "%s/%s/%s/%d" % (self.seed, self.prop, self.worker, i)
        return t
