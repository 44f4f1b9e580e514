"""Determinism self-test: the same traces in fresh interpreters with another PYTHONHASHSEED, in
another order (as another worker count would give), must produce the same event logs to the byte.

    python3 tools/determinism.py [SEEDS=6] [RUNS=12]"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst import runner
seeds, runs = int((sys.argv + ["", "6"])[1] or 6) if len(sys.argv) > 1 else 6, int(sys.argv[2]) if len(sys.argv) > 2 else 12
bad = total = 0
jobs = []
for p in runner.CLAIMED:
    jobs.append(p)
def start(p, hashseed, order):
    return subprocess.Popen([runner.PYTHON, "-B", "-m", "dst.digests", p, "1-%d" % seeds, str(runs), order], cwd=V,
                            env=runner.env_for({"PYTHONHASHSEED": hashseed, "JAX_ENABLE_X64": "0"}), stdout=subprocess.PIPE, text=True)
variants = [("0", "forward"), ("4242", "forward"), ("77", "reverse"), ("random", "forward")]
for i in range(0, len(jobs), 2):
    ps = {(p, v): start(p, *v) for p in jobs[i:i + 2] for v in variants}
    outs = {k: dict((l.split()[0], l) for l in pr.communicate()[0].splitlines()) for k, pr in ps.items()}
    for p in jobs[i:i + 2]:
        base = outs[(p, variants[0])]
        for v in variants[1:]:
            for k in base:
                total += 1
                if base[k] != outs[(p, v)].get(k):
                    bad += 1
                    print("DIFFERS", p, v, base[k], "|", outs[(p, v)].get(k))
        print(p, len(base), "traces x", len(variants), flush=True)
print("%d comparisons, %d differences" % (total, bad))
sys.exit(1 if bad else 0)
