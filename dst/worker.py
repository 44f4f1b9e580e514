"""One worker: runs its share of the seeded traces until told to stop or a violation is found.

    python -m dst.worker PROPERTY SEED WORKER TIER SECONDS OUTFILE [UPTO]

With UPTO, runs exactly the session 0..UPTO (session replay)."""
import hashlib
import json
import os
import random
import sys
import time
import traceback


def main():
    prop, seed, worker, tier, seconds, out = sys.argv[1:7]
    seed, worker, seconds = int(seed), int(worker), float(seconds)
    upto = int(sys.argv[7]) if len(sys.argv) > 7 else None
    begin = time.time()
    stream = open(out, "a", buffering=1)

    def emit(**rec):
        stream.write(json.dumps(rec) + "\n")
    from . import boot, known, props, run, session, world
    s = session.Session(seed, prop, worker, tier)
    knowns = known.load(prop)
    emit(kind="ready", t=time.time() - begin, hashseed=os.environ.get("PYTHONHASHSEED"), x64=boot.X64)
    start = time.time()
    agg = {"runs": 0, "nontrivial": 0, "ops": 0, "stats": {}, "switches": 0, "preemptions": 0, "rechecked": 0,
           "known": {}, "scen": {}, "gran": {}, "regime": {}}
    digests, states, orders = set(), set(), set()
    samples = []
    i = 0
    floor = 12
    last_status = 0
    while True:
        now = time.time()
        if upto is not None:
            if i > upto:
                break
        elif now - start >= seconds and (i >= floor or now - start > 4 * seconds):
            break
        trace = s.trace(i)
        emit(kind="run", i=i)
        try:
            res, hits, kn = props.evaluate(prop, trace, knowns)
        except Exception as e:
            emit(kind="harness", i=i, error="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-3000:],
                 trace=trace)
            i += 1
            continue
        d = res.digest()
        if hits:
            emit(kind="hit", i=i, trace=trace, digest=d, hits=[[n, repr(m)] for n, m in hits[:20]],
                 cls=[hits[0][1].op, hits[0][1].field.split(":")[0]])
            if upto is None:
                break
        for k, mine in kn:
            agg["known"][k.text] = agg["known"].get(k.text, 0) + 1
        agg["runs"] += 1
        ops = sum(v for k, v in res.stats.items() if k.startswith("op:"))
        changed = sum(v for k, v in res.stats.items() if k.startswith("op:")) - \
            sum(v for k, v in res.stats.items() if k.startswith("reject:"))
        agg["ops"] += ops
        if changed >= 2 and d not in digests:
            agg["nontrivial"] += 1
        digests.add(d)
        for k, v in res.stats.items():
            agg["stats"][k] = agg["stats"].get(k, 0) + v
        agg["switches"] += res.switches
        agg["preemptions"] += res.preemptions
        if res.order is not None:
            orders.add(hashlib.sha256(repr(res.order).encode()).hexdigest()[:12])
        states |= res.states
        for key, v in (("scen", trace["scen"]), ("gran", trace["gran"]), ("regime", trace["cfg"]["regime"])):
            agg[key][v] = agg[key].get(v, 0) + 1
        if len(samples) < 2 and i in (0, 5):
            samples.append({"id": trace["id"], "trace": trace, "log_tail": res.log[-4:], "digest": d})
        if i % 20 == 3 or (upto is not None and i < 0):
            # the same trace again must give the same log, to the byte
            again = run.execute(trace)
            agg["rechecked"] += 1
            if again.digest() != d and not hits:
                n = next((j for j, (a, b) in enumerate(zip(res.log, again.log)) if a != b), -1)
                emit(kind="diverged", i=i, trace=trace, at=n, first=res.log[n:n + 1], second=again.log[n:n + 1])
        i += 1
        if i % 400 == 0:
            world.clear_jitted()
            boot.jax.clear_caches()
    emit(kind="done", i=i, t=time.time() - start, agg=agg, digests=sorted(digests), states=sorted(map(repr, states)),
         orders=sorted(orders), samples=samples)


if __name__ == "__main__":
    main()
