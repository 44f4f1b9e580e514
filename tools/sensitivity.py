#!/usr/bin/env python3
"""Run checks against the planted bugs in seeded/ (scratch copies of the repository only).

usage: tools/sensitivity.py [--all] [--seed N] [ID ...]

For every bug: copy /repo to a scratch directory, apply the patch, run the check of the bug's
property (with --all: every check) with DST_REPO pointing at the copy, report the result.
A development tool: no check reads seeded/.
"""
import json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    every = "--all" in args
    args = [a for a in args if a != "--all"]
    seed = "1"
    if "--seed" in args:
        i = args.index("--seed")
        seed = args[i + 1]
        del args[i:i + 2]
    ids = args or sorted(os.listdir(f"{ROOT}/seeded"))
    manifest = json.load(open(f"{ROOT}/MANIFEST.json"))
    props = [c["property"] for c in manifest["checks"]] if every else None
    for ident in ids:
        d = f"{ROOT}/seeded/{ident}"
        meta = json.load(open(d + "/meta.json"))
        tmp = tempfile.mkdtemp(prefix="dst-sens-")
        repo = tmp + "/repo"
        try:
            subprocess.run(["cp", "-a", "/repo", repo], check=True)
            subprocess.run(["git", "apply", d + "/patch.diff"], cwd=repo, check=True)
            for prop in props or [meta["property"]]:
                t = time.time()
                r = subprocess.run([f"{ROOT}/bin/check", prop], cwd=ROOT, capture_output=True, text=True,
                                   env=dict(os.environ, DST_REPO=repo, VERIF_SEED=seed))
                line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                mark = {0: "missed", 1: "CAUGHT"}.get(r.returncode, f"ERROR rc={r.returncode}")
                print(f"{ident:20} {prop} {mark} {time.time() - t:5.0f}s {line[0] if line else r.stderr[-200:]}", flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
