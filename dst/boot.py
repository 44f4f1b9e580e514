"""Process set-up for one simulation worker.

Everything that could make an execution differ from its replay is pinned here, before
JAX or the repository is imported:

* JAX runs on one CPU thread; the hash seed is given by the parent process.
* every code object of the repository is captured as it is loaded, so that the simulator
  can place a scheduling / fault point at any of its lines or bytecode instructions,
  without any change to the repository (points.py).
* locks the repository creates are replaced by simulated ones (points.SimLock); should it read a
  clock or sleep, it meets the simulated one (Clock), and random numbers are seeded per run.
* the repository's module- and class-level state is recorded after import, so that a
  simulated process restart can wipe it (wipe_process_memory).
"""
import collections
import gc
import os
import random
import sys
import threading
import time
import types
import weakref

REPO = os.path.realpath(os.environ.get("DST_REPO", "/repo"))
SRC = os.path.join(REPO, "src") + os.sep

os.environ["JAX_PLATFORMS"] = "cpu"
os.environ["XLA_FLAGS"] = "--xla_backend_optimization_level=0 --xla_cpu_multi_thread_eigen=false --xla_force_host_platform_device_count=3"
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True

CODES = []


def _walk(code):
    CODES.append(code)
    for const in code.co_consts:
        if hasattr(const, "co_code"):
            _walk(const)


def _capture_code():
    import importlib._bootstrap_external as be
    original = be.SourceLoader.get_code

    def get_code(self, fullname):
        code = original(self, fullname)
        if code is not None and code.co_filename.startswith(SRC):
            _walk(code)
        return code

    be.SourceLoader.get_code = get_code


def _patch_locks():
    from . import points
    real_lock, real_rlock = threading.Lock, threading.RLock

    def make(real, reentrant):
        def factory(*args, **kwargs):
            caller = sys._getframe(1).f_code.co_filename
            if caller.startswith(SRC):
                return points.SimLock(real, reentrant)
            return real(*args, **kwargs)
        return factory

    threading.Lock = make(real_lock, False)
    threading.RLock = make(real_rlock, True)


class Clock:
    """Simulated time: a millisecond passes at every reading, the trace makes it jump."""
    START = 1.7e9

    def __init__(self):
        self.now = self.wall = 0.0
        self.reads = 0

    def reset(self):
        self.now, self.wall, self.reads = 0.0, self.START, 0

    def jump(self, seconds):
        self.wall += seconds                # the wall clock may also be set back
        self.now += max(seconds, 0.0)

    def read(self, wall):
        self.reads += 1
        self.now += 0.001
        self.wall += 0.001
        return self.wall if wall else self.now


CLOCK = Clock()


def _patch_clocks():
    def seam(name, simulated):
        real = getattr(time, name)

        def fn(*args):
            if sys._getframe(1).f_code.co_filename.startswith(SRC):
                return simulated(*args)
            return real(*args)
        setattr(time, name, fn)
    seam("time", lambda: CLOCK.read(True))
    seam("time_ns", lambda: int(CLOCK.read(True) * 1e9))
    for name in ("monotonic", "perf_counter", "process_time", "thread_time"):
        seam(name, lambda: CLOCK.read(False))
        seam(name + "_ns", lambda: int(CLOCK.read(False) * 1e9))
    seam("sleep", lambda s: CLOCK.jump(max(float(s), 0.0)))


_capture_code()
_patch_locks()
_patch_clocks()
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings  # noqa: E402
warnings.simplefilter("ignore")
import logging  # noqa: E402
logging.getLogger("jax").setLevel(logging.CRITICAL)

import numpy as np  # noqa: E402
import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402,F401
import src.jax_act as act  # noqa: E402
import src.jax_act.core.states  # noqa: E402,F401
import src.jax_act.layers.act  # noqa: E402,F401
import src.jax_act.layers.core as layers_core  # noqa: E402,F401

if not os.path.realpath(act.__file__).startswith(SRC):
    raise SystemExit("harness error: imported %s, not %s" % (act.__file__, SRC))

X64 = bool(jax.config.jax_enable_x64)


# ---- simulated process memory -------------------------------------------------------
_MISSING = object()


def _containers(value, depth=0):
    if isinstance(value, dict):
        return ("dict", value, [(k, v, _containers(v, depth + 1) if depth < 2 else None)
                                for k, v in value.items()])
    if isinstance(value, list):
        return ("list", value, [(v, _containers(v, depth + 1) if depth < 2 else None) for v in value])
    if isinstance(value, (set, bytearray, collections.deque)):
        return ("copy", value, value.copy())
    if isinstance(value, (weakref.WeakKeyDictionary, weakref.WeakValueDictionary, weakref.WeakSet)):
        return ("copy", value, value.copy())
    if hasattr(value, "cache_clear") and callable(value.cache_clear):
        return ("cache", value, None)
    own = getattr(type(value), "__module__", "").startswith("src.jax_act") and not isinstance(value, type)
    if (own or isinstance(value, (threading.local, types.FunctionType))) and isinstance(
            getattr(value, "__dict__", None), dict) and depth < 3:
        inside = _containers(vars(value), depth + 1)        # an object's attributes, a function's
        cells = [_containers(c.cell_contents, depth + 1) for c in getattr(value, "__closure__", None) or ()
                 if _filled(c)] if depth < 2 else []
        return ("all", None, [inside] + cells)
    return None


def _filled(cell):
    try:
        cell.cell_contents
        return True
    except ValueError:
        return False


def _restore(record):
    if record is None:
        return
    kind, target, saved = record
    if kind == "dict":
        target.clear()
        for k, v, sub in saved:
            target[k] = v
            _restore(sub)
    elif kind == "list":
        target[:] = [v for v, _ in saved]
        for _, sub in saved:
            _restore(sub)
    elif kind == "copy":
        target.clear()
        target.extend(saved) if hasattr(target, "extend") else target.update(saved)
    elif kind == "all":
        for sub in saved:
            _restore(sub)
    elif kind == "cache":
        target.cache_clear()


_SKIP = ("__dict__", "__weakref__", "__doc__", "__module__", "__builtins__")


def _namespace_record(owner):
    names = {}
    for name, value in list(vars(owner).items()):
        if name in _SKIP:
            continue
        inner = value.__func__ if isinstance(value, (staticmethod, classmethod)) else value
        record = _containers(inner) if not name.startswith("__") else None
        defaults = None
        if hasattr(inner, "__defaults__") and inner.__defaults__:
            defaults = [_containers(d) for d in inner.__defaults__]
        names[name] = (value, record, defaults)
    return names


def _owners():
    seen = []
    for modname in sorted(sys.modules):
        if modname == "src.jax_act" or modname.startswith("src.jax_act."):
            module = sys.modules[modname]
            if not getattr(module, "__file__", None):
                continue
            seen.append(module)
            for value in list(vars(module).values()):
                if isinstance(value, type) and getattr(value, "__module__", "").startswith("src.jax_act"):
                    if value not in seen:
                        seen.append(value)
    return seen


_RECORD = None


def record_process_memory():
    global _RECORD
    _RECORD = [(owner, _namespace_record(owner)) for owner in _owners()]


def wipe_process_memory():
    """Forget everything the repository's modules and classes learned since import."""
    from . import points
    for lock in list(points.LOCKS):
        lock.reset()
    random.seed(0)
    np.random.seed(0)
    for owner, names in _RECORD:
        for name in list(vars(owner)):
            if name in _SKIP or name in names:
                continue
            if name.startswith("__") or name.startswith("_abc") or name == "_flax_internals":
                continue
            try:
                delattr(owner, name)
            except (AttributeError, TypeError):
                pass
        for name, (value, record, defaults) in names.items():
            if not name.startswith("__") and vars(owner).get(name, _MISSING) is not value:
                try:
                    setattr(owner, name, value)
                except (AttributeError, TypeError):
                    pass
            _restore(record)
            for d in defaults or ():
                _restore(d)


record_process_memory()
gc.disable()
