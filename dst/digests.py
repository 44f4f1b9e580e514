"""python -m dst.digests PROPS SEEDS RUNS ORDER: one line per trace with the digest of its event log."""
import sys


def main():
    props_, seeds, runs, order = sys.argv[1].split(","), range(int(sys.argv[2].split("-")[0]), int(sys.argv[2].split("-")[1]) + 1), int(sys.argv[3]), sys.argv[4]
    from . import props, run, session
    todo = []
    for p in props_:
        for seed in seeds:
            s = session.Session(seed, p, 0, "quick")
            todo += [s.trace(i) for i in range(runs)]
    if order == "reverse":
        todo.reverse()
    for t in todo:
        r = run.execute(t)
        print("%s %s %d %d" % (t["id"], r.digest(), sum(r.stats.values()), len(r.mism)))


if __name__ == "__main__":
    main()
