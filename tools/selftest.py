#!/usr/bin/env python3
"""Determinism self-test: the same seeds give the same event hashes in every
process, whatever ran before in it, and when replayed from their decisions.

usage: selftest.py [runs per property and flavour, default 200]"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build as B
from props import PROPS

N = int(sys.argv[1]) if len(sys.argv) > 1 else 200


def start(exe, prop, first, step, n, replay):
    cmd = [exe, "selftest", "--prop", prop, "--seed", "1", "--from", str(first),
           "--stride", str(step), "--runs", str(n)] + (["--replay"] if replay else [])
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, text=True)


def main():
    exes = B.build(["rel", "dbg", "prof"])
    if not exes:
        return 2
    bad = total = procs = 0
    for prop in sorted(PROPS):
        for fl in PROPS[prop]["flavours"]:
            ref = None
            # One process; three and eight processes that share the runs; and a
            # process that also replays every run.
            for parts in (1, 3, 8, -1):
                k = abs(parts)
                ps = [start(exes[fl], prop, i, k, (N + k - 1) // k, parts < 0) for i in range(k)]
                got = {}
                for p in ps:
                    out = p.communicate()[0]
                    procs += 1
                    for line in out.splitlines():
                        f = line.split()
                        if len(f) != 4 or f[2] in ("machinery", "REPLAY-DIFFERS"):
                            print("BAD", fl, line)
                            bad += 1
                            continue
                        if int(f[1]) < N:
                            got[f[1]] = f[2:]
                total += len(got)
                if ref is None:
                    ref = got
                elif got != ref:
                    diff = [r for r in ref if got.get(r) != ref[r]]
                    print("DIFFERENT", fl, prop, "parts", parts, "runs", diff[:10])
                    bad += 1
            print("%s %s %d runs" % (prop, fl, len(ref)), flush=True)
    print("%d executions in %d processes, %d differences" % (total, procs, bad))
    return 1 if bad else 0


sys.exit(main())
