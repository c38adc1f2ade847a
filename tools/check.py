#!/usr/bin/env python3
"""Decides one property by simulation.

usage: check.py PROPERTY [--tier quick|thorough]

exit 0: held; 1: violation (with a VIOLATION line); 2: error.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build as B
from props import PROPS, RULE, ASSUMPTIONS


def log(*a):
    print(*a, flush=True)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    exes = B.build(list(cfg["flavours"]))
    if not exes:
        return 2
    t_build = time.time() - t0
    ncpu = len(os.sched_getaffinity(0))
    env = {k: v for k, v in os.environ.items() if k not in ("RUY_PATHS", "LD_PRELOAD", "RUYSIM_EXEC")}
    tmp = tempfile.mkdtemp(prefix="ruysim-")
    procs = []
    try:
        total = sum(f["workers"] for f in cfg["flavours"].values())
        n = 0
        for fl, f in cfg["flavours"].items():
            w = max(1, round(f["workers"] * max(ncpu, 2) / total))
            for i in range(w):
                secs, runs = (cfg.get("cap_s", 300), f["runs"]) if tier == "quick" else (cfg.get("thorough_s", 540), 10**9)
                out = os.path.join(tmp, "%s-%d.json" % (fl, i))
                cand = os.path.join(tmp, "%s-%d.cand" % (fl, i))
                cmd = [exes[fl], "explore", "--prop", prop, "--seed", str(seed), "--worker", str(i),
                       "--workers", str(w), "--secs", str(secs), "--maxruns", str(runs),
                       "--out", out, "--cand", cand, "--cpu", str(n)]
                procs.append((fl, i, out, cand, subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL,
                                                              stderr=open(out + ".err", "w"))))
                n += 1
        t1 = time.time()
        hit = None
        err = None
        live = list(procs)
        while live and hit is None and err is None:
            time.sleep(0.05)
            for p in list(live):
                rc = p[4].poll()
                if rc is None:
                    continue
                live.remove(p)
                if rc == 1:
                    hit = p
                    break
                if rc != 0:
                    err = p
                    break
        if hit or err:
            # Let workers that are about to finish do so, then stop the rest.
            for p in live:
                p[4].kill()
            for p in live:
                p[4].wait()
        t_explore = time.time() - t1
        res = []
        for fl, i, out, cand, pr in procs:
            try:
                d = json.load(open(out))
                d["flavour"] = fl
                res.append(d)
            except (OSError, ValueError):
                pass
        if err:
            fl, i, out, cand, pr = err
            msg = ""
            try:
                msg = json.load(open(out))["error"]
            except (OSError, ValueError, KeyError):
                pass
            sys.stderr.write("machinery error in %s worker %d (rc %d): %s\n%s\n" %
                             (fl, i, pr.returncode, msg, open(out + ".err").read()[-2000:]))
            return 2
        violations = 0
        replay = None
        if hit:
            replay = confirm(prop, exes[hit[0]], hit[3], seed, env, tmp)
            if replay is None:
                return 2
            violations = 1
        evidence(prop, tier, seed, cfg, res, t_build, t_explore, time.time() - t0, violations, replay)
        if violations:
            log("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        runs = sum(d["runs"] for d in res)
        foreign = {}
        for d in res:
            for k, v in d["foreign"].items():
                foreign[k] = foreign.get(k, 0) + v
        log("%s held: %d runs in %.1f s (build %.1f s)%s" %
            (prop, runs, t_explore, t_build, " other outcomes: %s" % foreign if foreign else ""))
        return 0
    finally:
        for p in procs:
            if p[4].poll() is None:
                p[4].kill()
                p[4].wait()
        shutil.rmtree(tmp, ignore_errors=True)


def confirm(prop, exe, cand, seed, env, tmp):
    """Returns the path of a replay file that reproduces, or None."""
    head = {}
    for l in open(cand):
        k, _, v = l.rstrip("\n").partition(" ")
        if k in ("expect", "hash", "seed", "message"):
            head[k] = v
    run = head["seed"].split()[-1]
    log("candidate: %s (run %s): %s" % (head["expect"], run, head["message"][:600]))
    for _ in range(2):
        p = subprocess.run([exe, "seed", "--prop", prop, "--seed", str(seed), "--run", run],
                           env=env, stdout=subprocess.PIPE, text=True)
        if p.returncode != 1 or ("class %s hash %s " % (head["expect"], head["hash"])) not in p.stdout:
            sys.stderr.write("machinery error: seed does not reproduce: %s\n" % p.stdout[:500])
            return None
    if subprocess.run([exe, "replay", cand], env=env, stdout=subprocess.DEVNULL).returncode != 1:
        sys.stderr.write("machinery error: recorded decisions do not reproduce\n")
        return None
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    dest = os.path.join(HERE, "replays", "%s-seed%d-run%s.replay" % (prop, seed, run))
    mini = os.path.join(tmp, "mini")
    p = subprocess.run([exe, "minimize", cand, mini, "--secs", "20"], env=env, stdout=subprocess.PIPE, text=True)
    best = cand
    if p.returncode == 0:
        ok = all(subprocess.run([exe, "replay", mini], env=env, stdout=subprocess.DEVNULL).returncode == 1
                 for _ in range(2))
        if ok:
            best = mini
            log(p.stdout.strip())
    shutil.copy(best, dest)
    return dest


def evidence(prop, tier, seed, cfg, res, t_build, t_explore, wall, violations, replay):
    def tot(k):
        return sum(d[k] for d in res)
    def merge(k):
        r = {}
        for d in res:
            for a, b in d[k].items():
                r[a] = r.get(a, 0) + b
        return r
    sched, state = set(), set()
    for d in res:
        sched.update(d.pop("sched_hashes"))
        state.update(d.pop("state_hashes"))
    runs = tot("runs")
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(state),
        "rule": RULE + " " + cfg["rule"],
        "samples": sum((d["samples"] for d in res), [])[:6],
        "runs_per_hour": round(runs / max(t_explore, 0.001) * 3600),
        "seeds": {fl: {"base_seed": seed, "runs": sum(d["runs"] for d in res if d["flavour"] == fl)}
                  for fl in cfg["flavours"]},
        "simulated_time_s": round(tot("vtime_s"), 3),
        "scheduling_steps": tot("steps"),
        "context_switches": tot("switches"),
        "plain_accesses_checked": tot("accesses"),
        "atomic_operations": tot("atomics"),
        "distinct_schedules": len(sched),
        "runs_with_faults_enabled": tot("faulty"),
        "runs_fault_free": runs - tot("faulty"),
        "faults_and_choices_fired": merge("fired"),
        "fault_points_considered": merge("considered"),
        "rare_condition_probes": merge("probes"),
        "runs_ended_by_accepted_failure": merge("ends"),
        "runs_per_scenario": merge("scenarios"),
        "outcomes_of_other_properties": merge("foreign"),
        "max_threads_in_a_run": max([d["maxthreads"] for d in res] or [0]),
        "real_components": cfg.get("real", "all x86 sources of ruy, compiled from /repo's working tree, and libstdc++"),
        "stub_components": "pthread scheduling, mutexes, condition variables, clocks and sleeping, heap, cpuinfo library, system calls of event counters, visibility order of atomic stores",
        "build_s": round(t_build, 2),
    }
    if replay:
        cov["replay"] = replay
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "exploration", "coverage": cov, "assumptions": ASSUMPTIONS + cfg.get("assumptions", []),
          "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(path + ".tmp", path)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
