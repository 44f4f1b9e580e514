"""Execution of a trace. A pure function of (trace, environment, repository)."""
import base64
import gc
import hashlib
import json
import logging
import os
import pickle
import random
import signal
import subprocess
import sys
import threading
import warnings
import zlib

import numpy as np

from . import boot, core, drive, grads, points, twins, world  # noqa: F401

HERE = os.path.dirname(os.path.abspath(__file__))


class Result:
    def __init__(self):
        self.mism = []
        self.stats = {}
        self.log = []
        self.states = set()
        self.switches = self.preemptions = 0
        self.order = None

    def absorb(self, w):
        self.mism += w.mism
        for k, v in w.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.log += w.log
        self.states |= w.states

    def digest(self):
        return hashlib.sha256("\n".join(self.log).encode()).hexdigest()[:16]


_since_gc = 0


def fresh_process():
    """What a new process would start with."""
    global _since_gc
    boot.wipe_process_memory()
    boot.CLOCK.reset()
    _since_gc += 1
    if _since_gc >= 25:
        _since_gc = 0
        gc.collect()


def run_single(trace, ops, twin=None):
    w = world.World(trace, twin)
    ctx = points.Ctx()
    T = world.Task(0, ctx)
    me = points._get_ident()
    points.CTX[me] = ctx
    try:
        for i, op in enumerate(ops):
            w.apply(T, op, i)
    except (points.TaskKilled, world.Stop):
        pass
    finally:
        points.CTX.pop(me, None)
    return w


class Bystander:
    """What else goes on in the process while a history runs: other clients with other (often
    easily confused) objects, failures of theirs, memory reuse, time and random numbers."""

    def __init__(self, trace):
        self.items = sorted(trace["noise"]["ops"], key=lambda it: it[0])
        self.w = world.World({"v": 1, "cfg": trace["noise"]["cfg"]})
        self.ctx = points.Ctx()
        self.T = world.Task(7, self.ctx)
        self.dead = False

    def until(self, i, main, counts, look):
        """what happens before the main client's operation i"""
        while self.items and self.items[0][0] <= i:
            op = self.items.pop(0)[1]
            self.happen(op, i, main, counts)
            look(op["op"], op["op"] != "entropy")

    def happen(self, op, i, main, counts):
        me = points._get_ident()
        kind = op["op"]
        counts["noise:" + kind] = counts.get("noise:" + kind, 0) + 1
        if kind == "entropy":
            random.seed(op["seed"])
            np.random.seed(op["seed"])
        elif kind == "gc":
            gc.collect()
        elif kind == "drop":
            self.w.pool.clear()
            self.w.mism.clear()
            self.T.cur.clear()
            self.T.stale.clear()
        elif kind == "clock":
            boot.CLOCK.jump(op["by"])
        elif not self.dead:
            if kind == "adopt":
                e = main.cur.get(op["kind"])
                if e is not None:
                    self.T.cur[e.kind] = self.w.add(e.obj, e.tpl)
                return
            mine = points.CTX.pop(me, None)
            points.CTX[me] = self.ctx
            try:
                self.w.apply(self.T, op, 5000 + i)
            except (points.TaskKilled, world.Stop):
                self.dead = True
            finally:
                self.ctx.on = False
                points.CTX[me] = mine


def settings():
    """Settings of the process that belong to its owner."""
    state = np.random.get_state()
    return {"jax configuration": dict(boot.jax.config.values), "numpy error handling": np.geterr(),
            "warning filters": list(warnings.filters), "random": hash(random.getstate()),
            "numpy random": (zlib.crc32(state[1].tobytes()), state[2]),
            "environment": dict(os.environ._data), "recursion limit": sys.getrecursionlimit(), "directory": os.getcwd(),
            "collector": gc.isenabled(), "jit": bool(boot.jax.config.jax_disable_jit), "x64": bool(boot.jax.config.jax_enable_x64),
            "threads": threading.active_count(), "streams": (id(sys.stdout), id(sys.stderr)), "trace": sys.gettrace(),
            "logging": logging.getLogger().level, "signals": signal.getsignal(signal.SIGINT), "hook": sys.excepthook}


def run_watched(trace, noise, twin):
    w = world.World(trace, twin)
    ctx = points.Ctx()
    T = world.Task(0, ctx)
    me = points._get_ident()
    points.CTX[me] = ctx
    by = Bystander(trace) if noise else None
    who = set(trace["noise"].get("who", ())) if noise else ()

    last = [settings()]

    def look(name, ours=True):
        now = settings()
        if ours and now != last[0]:
            w.flag(name, "hist:process", None, "changed settings of the process: %s" % ",".join(
                k for k in now if now[k] != last[0][k]))
        last[0] = now
    try:
        for i, op in enumerate(trace["ops"]):
            if noise:
                by.until(i, T, w.stats, look)
                op = dict(op, who=1) if i in who else op
            w.apply(T, op, i)
            look(op["op"])
    except (points.TaskKilled, world.Stop):
        pass
    finally:
        points.CTX.pop(me, None)
    return w, by


def run_noise(trace, res):
    """The same history on its own and amid everything else a process may do: the results are
    the same to the bit."""
    a, _ = run_watched(trace, False, twins.Same())
    fresh_process()
    boot.CLOCK.jump(trace["noise"].get("later", 0.0))
    b, by = run_watched(trace, True, twins.Same())
    res.absorb(a)
    for k, v in b.stats.items():
        if k.startswith("noise:"):
            res.stats[k] = v
    if by is not None:
        for k, v in by.w.stats.items():
            if k.startswith("fault:") or k == "other-thread":
                res.stats[k] = res.stats.get(k, 0) + v
    res.mism += [m for m in b.mism if m[1].field.startswith("hist:")]
    res.mism += twins.compare_history(a, b)
    res.log += b.log
    if trace.get("hashseed"):
        env = dict(os.environ, PYTHONHASHSEED=str(trace["hashseed"]))
        r = subprocess.run([sys.executable, "-B", "-m", "dst.run"], cwd=os.path.dirname(HERE), env=env,
                           input=json.dumps({"plain": trace}), capture_output=True, text=True, timeout=240)
        if r.returncode != 0:
            res.mism.append((0, core.Mismatch("history", "hist:process", None, "another process could not run it: %s" %
                                              r.stderr.strip()[-300:])))
        else:
            res.stats["fault:other-process"] = 1
            there = json.loads(r.stdout.splitlines()[-1])
            if there != a.log:
                n = next((i for i, (x, y) in enumerate(zip(a.log, there)) if x != y), min(len(a.log), len(there)))
                res.mism.append((0, core.Mismatch("history", "hist:process", None, "another process got %s, this one %s" % (
                    there[n:n + 1], a.log[n:n + 1]))))


def run_threads(trace, res):
    w = world.World(trace, None, threads=True)
    ctx = points.Ctx()
    T0 = world.Task(-1, ctx)
    me = points._get_ident()
    points.CTX[me] = ctx
    try:
        for i, op in enumerate(trace.get("pre", [])):
            w.apply(T0, op, i)
    except world.Stop:
        res.absorb(w)
        return
    finally:
        points.CTX.pop(me, None)
    sched = points.Scheduler(trace.get("schedule", []))

    def make(index, ops):
        def body(ctx):
            T = world.Task(index, ctx)
            try:
                for i, op in enumerate(ops):
                    w.apply(T, op, 1000 * (index + 1) + i)
            except world.Stop:
                pass
        return body
    if trace["tasks"]:
        sched.run([make(i, ops) for i, ops in enumerate(trace["tasks"])])
    if sched.deadlock:
        w.mism.append((0, core.Mismatch("threads", "deadlock", None, sched.deadlock)))
    w.note("order", sched.order)
    res.switches, res.preemptions = sched.switches, sched.preemptions
    res.order = sched.order
    res.absorb(w)


def run_resume(trace, res):
    """Run to the cut, write a checkpoint, continue here and in a fresh interpreter; compare."""
    cut = trace["cut"]
    w = world.World(trace)
    ctx = points.Ctx()
    T = world.Task(0, ctx)
    me = points._get_ident()
    points.CTX[me] = ctx
    try:
        for i, op in enumerate(trace["ops"][:cut]):
            w.apply(T, op, i)
        c = T.cur.get("controller")
        if c is None:
            raise world.Stop()
        try:
            blob = pickle.dumps(c.obj)
        except Exception as e:
            w.flag("restore", "error", None, "pickling failed: %s: %s" % (type(e).__name__, e))
            raise world.Stop()
        tpl = c.tpl
        tail = trace["ops"][cut:]
        here = continue_from(trace, c.obj, tpl, tail, w)
        env = dict(os.environ, PYTHONHASHSEED=str(trace.get("hashseed", 7)))
        r = subprocess.run([sys.executable, "-B", "-m", "dst.run"], cwd=os.path.dirname(HERE), env=env,
                           input=json.dumps({"trace": trace, "tpl": tpl, "blob": base64.b64encode(blob).decode()}),
                           capture_output=True, text=True, timeout=240)
        if r.returncode != 0:
            w.flag("resume", "error", None, "a fresh process could not continue: %s" % r.stderr.strip()[-400:])
        else:
            there = json.loads(r.stdout.splitlines()[-1])
            w.count("fault:process-restart")
            if here != there:
                n = next((i for i, (a, b) in enumerate(zip(here, there)) if a != b), min(len(here), len(there)))
                w.flag("resume", "continuation", None, "after the restart operation %d gave %s, uninterrupted %s" % (
                    n, there[n:n + 1], here[n:n + 1]))
    except world.Stop:
        pass
    finally:
        points.CTX.pop(me, None)
    res.absorb(w)


def continue_from(trace, obj, tpl, tail, w0=None):
    w = world.World(trace)
    ctx = points.CTX[points._get_ident()]
    T = world.Task(0, ctx)
    try:
        e = w.add(obj, tpl)
    except Exception as err:
        return ["unreadable " + type(err).__name__]
    T.cur[e.kind] = e
    w.note(w.digest(e.snap))
    try:
        for i, op in enumerate(tail):
            w.apply(T, op, i)
    except world.Stop:
        pass
    if w0 is not None:
        w0.mism += w.mism
    return w.log


def execute(trace):
    fresh_process()
    points.install(trace.get("gran", "line"))
    res = Result()
    scen = trace.get("scen", "hist")
    if scen == "hist":
        res.absorb(run_single(trace, trace["ops"]))
    elif scen == "threads":
        run_threads(trace, res)
    elif scen in ("lanes", "chans"):
        ref = twins.Same()
        a = run_single(trace, trace["ops"], ref)
        fresh_process()
        spec = trace["twin"]
        twin = twins.Lanes(spec) if scen == "lanes" else twins.Chans(spec, trace["cfg"]["tpls"])
        b = run_single(trace, trace["ops"], twin)
        res.absorb(a)
        res.stats["paired-ops"] = len(b.record)
        res.mism += twins.compare_records(a, b, twin, spec, "lane" if scen == "lanes" else "chan")
        res.log += b.log
    elif scen == "noise":
        run_noise(trace, res)
    elif scen == "resume":
        run_resume(trace, res)
    else:
        raise KeyError(scen)
    if boot.CLOCK.reads:
        res.stats["clock-readings"] = boot.CLOCK.reads
    res.log.append("mismatches %d" % len(res.mism))
    return res


if __name__ == "__main__":
    job = json.load(sys.stdin)
    points.install(None)
    ctx_ = points.Ctx()
    points.CTX[points._get_ident()] = ctx_
    if "plain" in job:
        tr = job["plain"]
        fresh_process()
        points.install(tr.get("gran", "line"))
        lonely, _ = run_watched(tr, False, twins.Same())
        print()
        print(json.dumps(lonely.log))
        sys.exit(0)
    tr = job["trace"]
    points.install(tr.get("gran", "line"))
    out = continue_from(tr, pickle.loads(base64.b64decode(job["blob"])), job["tpl"], tr["ops"][tr["cut"]:])
    print()
    print(json.dumps(out))
