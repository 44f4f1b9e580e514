"""The parent process of a check: starts the workers, watches them, minimises and verifies
what they find, and writes the evidence. Imports neither JAX nor the repository."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from .session import Session, environment

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")
WORKERS = int(os.environ.get("DST_WORKERS", "8"))
SECONDS = {"quick": 60.0, "thorough": 540.0}
STALL = 150.0           # a worker silent for this long is examined
ALONE = 120.0           # and its trace gets this long on its own

CLAIMED = ["C%02d" % i for i in range(1, 20)] + ["C21", "C22"]


def env_for(over):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("JAX_", "XLA_", "PYTHON", "FLAX_"))}
    env.update({"JAX_PLATFORMS": "cpu", "TF_CPP_MIN_LOG_LEVEL": "3", "PYTHONDONTWRITEBYTECODE": "1",
                "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"})
    env.update(over)
    return env


def spawn(module, args, over, out=subprocess.DEVNULL, err=subprocess.DEVNULL):
    return subprocess.Popen([PYTHON, "-B", "-m", "dst." + module] + [str(a) for a in args], cwd=VERIF,
                            env=env_for(over), stdout=out, stderr=err, start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(10)
    except subprocess.TimeoutExpired:
        pass


class W:
    def __init__(self, prop, seed, index, tier, seconds, scratch):
        self.index = index
        self.env = environment(seed, index)
        self.path = os.path.join(scratch, "w%d.jsonl" % index)
        self.errpath = os.path.join(scratch, "w%d.err" % index)
        open(self.path, "w").close()
        self.err = open(self.errpath, "w")
        self.p = spawn("worker", [prop, seed, index, tier, seconds, self.path], self.env, err=self.err)
        self.f = open(self.path)
        self.buf = ""
        self.last = time.time()
        self.run = -1
        self.ready = self.done = self.hit = None
        self.harness, self.diverged = [], []

    def poll(self):
        self.buf += self.f.read()
        while "\n" in self.buf:
            line, self.buf = self.buf.split("\n", 1)
            rec = json.loads(line)
            self.last = time.time()
            k = rec["kind"]
            if k == "run":
                self.run = rec["i"]
            elif k == "ready":
                self.ready = rec
            elif k == "hit":
                self.hit = rec
            elif k == "harness":
                self.harness.append(rec)
            elif k == "diverged":
                self.diverged.append(rec)
            elif k == "done":
                self.done = rec

    def stderr(self):
        self.err.flush()
        return open(self.errpath).read()[-2000:]


def run_replay(job, scratch, timeout=ALONE):
    """-> (exit code or None for a hang, identical?, output)"""
    path = os.path.join(scratch, "try.json")
    with open(path, "w") as f:
        json.dump(job, f)
    p = spawn("replay", [path, "quiet"], job["env"], out=subprocess.PIPE, err=subprocess.STDOUT)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return None, False, "no result within %d s" % timeout
    out = out.decode(errors="replace")
    return p.returncode, "identical=True" in out, out


def run_session(job, scratch):
    """replay all runs of the worker up to the failing one"""
    path = os.path.join(scratch, "session.jsonl")
    open(path, "w").close()
    s = job["session"]
    p = spawn("worker", [job["property"], s["seed"], s["worker"], s["tier"], 0, path, s["upto"]], job["env"])
    try:
        p.wait(400)
    except subprocess.TimeoutExpired:
        kill(p)
        return None, False
    hit = None
    for line in open(path):
        rec = json.loads(line)
        if rec["kind"] == "hit":
            hit = rec
    return (1 if hit else 0), bool(hit and hit["i"] == s["upto"] and hit["hits"] == job["hits"])


def replay_cli(path):
    job = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="dst-replay-")
    try:
        if job["how"] == "session":
            code, same = run_session(job, scratch)
            print("session replay: violation %s, identical=%s" % ("reproduced" if code == 1 else "not reproduced", same))
        else:
            p = spawn("replay", [path], job["env"], out=None, err=None)
            try:
                code = p.wait(ALONE)
            except subprocess.TimeoutExpired:
                kill(p)
                code = None
        if job["how"] in ("hang", "crash"):
            bad = code is None if job["how"] == "hang" else code not in (0, 1)
            print("the process %s" % ("hangs" if code is None else "ends with %s" % code))
            code = 1 if bad else 0
        if code == 1:
            print("VIOLATION property=%s replay=%s" % (job["property"], path))
        return 1 if code == 1 else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def save(job):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (job["property"], job["id"].replace("/", "_")))
    with open(path, "w") as f:
        json.dump(job, f, indent=1)
    return path


def report(prop, w, tier, seed, scratch, shrink_seconds):
    """A worker found something: minimise it, verify the replay in a fresh process, save it."""
    hit = w.hit
    job = {"property": prop, "id": hit["trace"]["id"], "how": "trace", "env": w.env, "trace": hit["trace"],
           "cls": hit["cls"], "digest": hit["digest"], "hits": hit["hits"],
           "session": {"seed": seed, "worker": w.index, "tier": tier, "upto": hit["i"]}}
    src, dst = os.path.join(scratch, "in.json"), os.path.join(scratch, "out.json")
    json.dump(job, open(src, "w"))
    p = spawn("shrink", [src, dst, shrink_seconds], w.env)
    try:
        p.wait(shrink_seconds + 150)
    except subprocess.TimeoutExpired:
        kill(p)
    candidates = []
    if os.path.exists(dst):
        try:
            candidates.append(json.load(open(dst)))
        except ValueError:
            pass
    candidates.append(job)
    for c in candidates:
        code, same, out = run_replay(c, scratch)
        if code == 1 and same:
            c["reproduced"] = "identical"
            return save(c), c
    for c in candidates:
        code, same, out = run_replay(c, scratch)
        if code == 1:
            c["reproduced"] = "violation, other details"
            return save(c), c
    job["how"] = "session"
    code, same = run_session(job, scratch)
    job["reproduced"] = ("identical" if same else "violation, other details") if code == 1 else "no"
    return save(job), job


def examine(prop, w, tier, seed, scratch, how):
    """A worker hung or died: does its trace do so again on its own?"""
    s_trace = None
    if w.run >= 0:
        s_trace = Session(seed, prop, w.index, tier).trace(w.run)
    if s_trace is None:
        return None
    job = {"property": prop, "id": s_trace["id"], "how": how, "env": w.env, "trace": s_trace, "hits": [], "digest": ""}
    code, same, out = run_replay(job, scratch)
    if (how == "hang" and code is None) or (how == "crash" and code not in (0, 1, None)):
        job["output"] = out[-2000:]
        return save(job), job
    return None


def main(prop):
    began = time.time()
    if prop not in CLAIMED:
        print("unknown property " + prop)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in SECONDS else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seconds = float(os.environ.get("DST_SECONDS", SECONDS[tier]))
    print("simulating %s: seed %d, tier %s, %d workers, %.0f s" % (prop, seed, tier, WORKERS, seconds), flush=True)
    scratch = tempfile.mkdtemp(prefix="dst-")
    ws = []
    try:
        ws = [W(prop, seed, i, tier, seconds, scratch) for i in range(WORKERS)]
        found, broken = None, []
        while True:
            time.sleep(0.2)
            alive = 0
            for w in ws:
                state = w.p.poll()
                w.poll()
                if w.hit and found is None:
                    found = w
                if state is None:
                    alive += 1
                    if time.time() - w.last > STALL and w not in broken:
                        kill(w.p)
                        broken.append((w, "hang"))
                        w.last = float("inf")
                elif w.done is None and w.hit is None and not any(b[0] is w for b in broken):
                    broken.append((w, "crash"))
            if found or not alive:
                break
        if found:
            t0 = time.time()
            for w in ws:        # let the others finish what they are doing only if they found something too
                if w is not found:
                    kill(w.p)
            path, job = report(prop, found, tier, seed, scratch, 25 if tier == "quick" else 90)
            evidence(prop, tier, seed, ws, began, 1, seconds)
            for n, text in job["hits"][:5]:
                print("operation %d: %s" % (n, text))
            m = job.get("minimised")
            if m:
                print("minimised from %(from_ops)d to %(to_ops)d operations in %(executions)d executions" % m)
            print("replay in a fresh process: %s (%.0f s)" % (job["reproduced"], time.time() - t0))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        for w, how in broken:
            got = examine(prop, w, tier, seed, scratch, how)
            if got:
                evidence(prop, tier, seed, ws, began, 1, seconds)
                print("run %s: the process %s, again when run alone" % (got[1]["id"], "does not end" if how == "hang" else "dies"))
                print("VIOLATION property=%s replay=%s" % (prop, got[0]))
                return 1
            print("harness error: worker %d %s at run %d, not reproduced\n%s" % (w.index, how, w.run, w.stderr()))
        harness = [(w, h) for w in ws for h in w.harness]
        for w, h in harness[:3]:
            print("harness error: worker %d run %d: %s\n%s" % (w.index, h["i"], h["error"], h["tb"]))
        diverged = [(w, d) for w in ws for d in w.diverged]
        for w, d in diverged[:3]:
            print("not repeatable: worker %d run %d: %s / %s" % (w.index, d["i"], d["first"], d["second"]))
        ev = evidence(prop, tier, seed, ws, began, 0, seconds)
        if broken or harness or diverged:
            return 2
        from . import known
        seen = {}
        for w in ws:
            for k, v in w.done["agg"]["known"].items():
                seen[k] = seen.get(k, 0) + v
        for k in known.load(prop):
            if k.text in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, k.text))
        c = ev["coverage"]
        print("%s held in %d runs (%d distinct non-trivial), %d operations, %d faults injected, %.0f s" % (
            prop, c["evaluations"], c["distinct_nontrivial"], c["operations"], sum(c["faults_fired"].values()),
            time.time() - began))
        return 0
    finally:
        for w in ws:
            if w.p.poll() is None:
                kill(w.p)
        shutil.rmtree(scratch, ignore_errors=True)


RULE = {
    "default": "One evaluation is one simulated run: a seeded trace (configuration, history of operations, schedule, faults) "
               "executed against the real library and checked step by step. It counts as distinct and non-trivial when at "
               "least two of its operations were not rejections and its event log (a digest over every result's bytes) "
               "differs from every other run's.",
}


def evidence(prop, tier, seed, ws, began, violations, seconds):
    agg = {"runs": 0, "nontrivial": 0, "ops": 0, "switches": 0, "preemptions": 0, "rechecked": 0}
    stats, groups, known = {}, {"scen": {}, "gran": {}, "regime": {}}, {}
    digests, states, orders, samples = set(), set(), set(), []
    used = 0.0
    for w in ws:
        if not w.done:
            continue
        a = w.done["agg"]
        used = max(used, w.done["t"])
        for k in agg:
            agg[k] += a[k]
        for k, v in a["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for g in groups:
            for k, v in a[g].items():
                groups[g][k] = groups[g].get(k, 0) + v
        for k, v in a["known"].items():
            known[k] = known.get(k, 0) + v
        digests |= set(w.done["digests"])
        states |= set(w.done["states"])
        orders |= set(w.done["orders"])
        samples += w.done["samples"][:1 if w.index else 2]
    pick = lambda p: {k[len(p):]: v for k, v in sorted(stats.items()) if k.startswith(p)}
    hours = max(used, 1e-9) / 3600
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": min(agg["nontrivial"], len(digests)),
        "rule": RULE["default"],
        "samples": samples[:4],
        "runs_per_hour": round(agg["runs"] / hours) if used else 0,
        "seeds": "every run has its own seed VERIF_SEED/property/worker/run",
        "operations": agg["ops"],
        "operations_by_kind": pick("op:"),
        "rejected_as_expected": pick("reject:"),
        "execution_modes": pick("mode:"),
        "programs_by_kind": pick("prog:"), "driver_runs": pick("drive:"), "driver_iterations": stats.get("drive-steps", 0),
        "flax_runs": pick("flax:"), "differentiated": pick("grad:"),
        "simulated_time": "the library has no clock; logical time is points passed (lines or bytecode instructions of library code)",
        "points_passed": stats.get("points", 0),
        "faults_fired": pick("fault:"), "faults_that_found_no_point": stats.get("fault-missed", 0),
        "what_else_went_on": pick("noise:"), "calls_from_another_thread": stats.get("other-thread", 0),
        "clock_readings_by_the_library": stats.get("clock-readings", 0),
        "retries_after_fault": stats.get("retries", 0), "restores": pick("restore:"), "checkpoints": stats.get("checkpoints", 0),
        "preemptions": agg["preemptions"], "context_switches": agg["switches"], "distinct_interleavings": len(orders),
        "distinct_logs": len(digests), "distinct_abstract_states": len(states),
        "abstract_state": "(object kind, lanes halted/underway/untouched, slots filled, slots, steps of the furthest lane)",
        "objects_reverified": stats.get("pool-verified", 0),
        "scenarios": groups["scen"], "point_granularity": groups["gran"], "value_regimes": groups["regime"],
        "runs_executed_twice_with_identical_log": agg["rechecked"],
        "components_real": ["src/jax_act (all of core, layers, frameworks/flax)", "jax", "jaxlib (XLA CPU, one thread)", "flax"],
        "components_stubbed": ["client code (layers, callbacks, callers) is scripted by the trace",
                               "threading.Lock/RLock created by the library would be simulated; it creates none"],
        "known_findings_seen": known,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["results of JAX primitives on CPU are deterministic (checked: re-executed runs have identical logs)",
                          "scheduling and fault points lie at lines/instructions of the library's own code, not inside JAX"],
          "wall_s": round(time.time() - began, 2), "violations": violations}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))
    return ev
