#!/usr/bin/env python3
"""check.py P## [--tier quick|thorough] [--replay FILE]: decides one property of the tree in /repo."""
import os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vp, cxx
from specs import SPECS


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    rep = None
    for i, x in enumerate(a):
        if x == "--tier":
            tier = a[i + 1]
        if x == "--replay":
            rep = os.path.abspath(a[i + 1])
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = SPECS[pid]
    engine = __import__(spec["engine"]) if "engine" in spec else cxx
    t0 = time.time()
    work = vp.scratch(pid)
    try:
        if rep:
            return engine.replay(pid, rep, spec, work)
        try:
            cov, bad = engine.check(pid, tier, seed, spec, work)
        except vp.Violation as e:
            cov, bad = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the tree did not get as far as generated cases", "samples": [e.text[:800]]}, e
        vp.write_evidence(pid, tier, seed, cov, spec.get("assumptions", []), time.time() - t0, 1 if bad else 0)
        for key, what in cov.get("known_findings", {}).items():
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        if bad:
            path = vp.write_replay(pid, bad.body, bad.ext)
            print(bad.text)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
        return 0
    except vp.BuildError as e:
        print("build failed: %s\n%s" % (e.what, e.log))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        vp.rmtree(work)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
