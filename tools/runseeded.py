#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property against a copy of /repo with the bug
applied: which are caught, which are missed. Usage: runseeded.py [id or prefix...]; -j N in
parallel; --all-checks runs every check against each. Development tool: no check uses it."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")


def one(bug):
    meta = json.load(open(os.path.join(SEEDED, bug, "meta.json")))
    d = tempfile.mkdtemp(prefix="vf-seeded-")
    try:
        repo = os.path.join(d, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        r = subprocess.run(["git", "-C", repo, "apply", os.path.join(SEEDED, bug, "patch.diff")],
                           capture_output=True, text=True)
        if r.returncode:
            return bug, meta["property"], "DOES NOT APPLY", 0, r.stderr[-300:]
        env = dict(os.environ, VF_REPO=repo, VERIF_TIER="quick", VF_OUT=os.path.join(d, "out"))
        env.setdefault("VERIF_SEED", "1")
        t = time.time()
        r = subprocess.run([sys.executable, os.path.join(VERIF, "bin/check.py"), meta["property"]],
                           cwd=VERIF, env=env, capture_output=True, text=True)
        dt = time.time() - t
        caught = r.returncode == 1 and "VIOLATION property=%s " % meta["property"] in r.stdout
        verdict = "caught" if caught else "MISSED" if r.returncode == 0 else "ERROR %d" % r.returncode
        return bug, meta["property"], verdict, dt, "" if caught else (r.stdout + r.stderr)[-600:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args, jobs = [], 2
    it = iter(sys.argv[1:])
    for a in it:
        if a == "-j":
            jobs = int(next(it))
        else:
            args.append(a)
    bugs = sorted(b for b in os.listdir(SEEDED) if not args or any(b.startswith(a) for a in args))
    bad = 0
    with cf.ThreadPoolExecutor(jobs) as ex:
        for bug, prop, verdict, dt, tail in ex.map(one, bugs):
            print("%-34s %s %-8s %4.0fs" % (bug, prop, verdict, dt), flush=True)
            if verdict != "caught":
                bad += 1
                print("    " + tail.replace("\n", "\n    "), flush=True)
    print("%d of %d caught" % (len(bugs) - bad, len(bugs)))


if __name__ == "__main__":
    main()
