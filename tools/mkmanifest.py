import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": "deterministic simulation of seeded step/reset/edit histories; step-wise refinement against a float64 model plus an independent conservation check",
 "C02": "deterministic simulation with probabilities placed exactly at the halting threshold; step-wise refinement of probabilities, residuals, iterations and flags",
 "C03": "deterministic simulation continuing past halting, with poisoned updates; bitwise freeze check of halted lanes against the model",
 "C04": "deterministic simulation of mis-ordered, repeated and failing cache/commit/reset calls; refinement of the slot automaton",
 "C05": "deterministic simulation of reset at arbitrary moments; refinement against the model",
 "C06": "deterministic simulation of forked histories; every live object re-verified bit for bit after every operation",
 "C07": "deterministic simulation with fault injection: exceptions raised at seeded lines/bytecode instructions, then pool verification and retry",
 "C08": "deterministic simulation of 2-4 threads under a seeded cooperative scheduler at line/bytecode granularity, refinement of every result",
 "C09": "deterministic simulation with crash and restart from checkpoints, also into a fresh interpreter; bitwise comparison of restored and continued histories",
 "C10": "differential deterministic simulation: the same trace under eager/nojit/jit/scan/while/vmap execution choices",
 "C11": "paired deterministic simulation (two executions that differ in all lanes but one), bitwise comparison",
 "C12": "deterministic simulation of scripted layers with failing callbacks; refinement of the driver loop",
 "C13": "deterministic simulation with Byzantine layers; refinement of accept/reject per iteration",
 "C14": "deterministic simulation of views over arbitrary histories with failing callbacks and poisoned data; refinement",
 "C15": "deterministic simulation of valid and invalid edits inside histories; refinement",
 "C16": "paired deterministic simulation (two executions that differ in all accumulators but one), bitwise comparison",
 "C17": "deterministic simulation over mixed dtypes, pytree nodes and degenerate shapes; structure/dtype/shape refinement",
 "C18": "deterministic simulation of valid, repeated and invalid definitions with forks; refinement",
 "C21": "deterministic simulation of histories under differentiation (vjp/jvp, eager/jit/scan/remat); refinement against a reverse pass over the reference model",
 "C22": "paired deterministic simulation: each history alone and amid a seeded bystander client with faults, clock jumps, reseeding, other threads and memory reuse; bitwise comparison of all results, process settings checked after every operation",
 "C19": "deterministic simulation of Flax init/apply histories with failing iterations; refinement against the plain loop",
}
NOTE = ("Seeded search: each run is one exactly repeatable execution of the real library on real JAX, checked after every "
        "operation; a quiet check means no violation in the runs reported in the evidence, not a proof. Trusted: the float64 "
        "reference model (dst/core.py), JAX's CPU results being deterministic (re-checked on a sample of runs).")
EXTRA = {"C07": " Faults are raised at line and bytecode boundaries of library code, not inside JAX or while JAX traces.",
         "C08": " Preemption points are line and bytecode boundaries of library code, not inside JAX.",
         "C19": " One known finding (inline sub-modules in a compiled loop) is listed in known-findings.txt."}
m = {"version": 1, "setup_cmd": "python3 tools/selfcheck.py",
     "checks": [{"property": p, "quick_cmd": "bin/check " + p, "thorough_cmd": "VERIF_TIER=thorough bin/check " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration",
                 "level_note": NOTE + EXTRA.get(p, "")} for p, t in sorted(T.items())],
     "not_applicable": [
         {"property": "C20", "reason": "Pure functions of two trees without state, schedule, fault or history: deterministic simulation has nothing to decide; plain property-based testing would be the technique. Their effect inside steps is covered by C01/C05/C17."}],
     "notes": "No hooks in /repo: scheduling and fault points are placed from outside through sys.monitoring (dst/boot.py, dst/points.py). fix: commits are listed in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
