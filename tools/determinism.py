#!/usr/bin/env python3
"""Runs the same seeds of every binary with one worker, with eight workers, and with a process for every run, in fresh
processes, and compares the digests (sum over all runs of the hash of index, variant and whole history).

  determinism.py [INDICES]"""
import json
import os
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check  # noqa: E402

n = sys.argv[1] if len(sys.argv) > 1 else "2000"
targets = sorted(set((j["world"], j["config"]) for c in check.CHECKS.values() for j in c["jobs"]))
bins = check.build(targets)
bad = total = 0
for t in targets:
    res = []
    t0 = time.time()
    for extra in (["--workers", "1"], ["--workers", "8"], ["--workers", "3", "--isolate", "1"]):
        r = subprocess.run([bins[t], "search", "--seed", "77", "--runs", n, "--max-sec", "1000"] + extra, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, env=check.run_env())
        d = json.loads(r.stdout)
        res.append((d["digest"], d["runs"], d.get("violation", {}).get("msg")))
    same = len(set(res)) == 1
    bad += not same
    total += res[0][1]
    print("%s %-14s runs=%d digests %s %.1fs%s" % ("same" if same else "DIFFERENT", ".".join(t), res[0][1], " ".join(x[0] for x in res), time.time() - t0,
                                            "" if res[0][2] is None else " " + res[0][2]))
print("%d binaries, %d differ, %d runs compared three ways" % (len(targets), bad, total))
sys.exit(1 if bad else 0)
