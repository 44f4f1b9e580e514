"""Executes one replay file: python -m dst.replay FILE  (environment set by bin/replay)
Exit 1 when the violation is there, 0 when it is not."""
import json
import sys


def main():
    job = json.load(open(sys.argv[1]))
    quiet = len(sys.argv) > 2
    from . import known, props
    res, hits, _ = props.evaluate(job["property"], job["trace"], known.load(job["property"]))
    if not quiet:
        for line in res.log[-60:]:
            print("  " + line)
    for n, m in hits[:20]:
        print("violated at operation %d: %r" % (n, m))
    same = res.digest() == job.get("digest") and [[n, repr(m)] for n, m in hits[:20]] == job.get("hits")
    print("REPLAY hits=%d digest=%s identical=%s" % (len(hits), res.digest(), same))
    return 1 if hits else 0


if __name__ == "__main__":
    sys.exit(main())
