#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's working tree.

usage: build.py FLAVOUR...   (rel, dbg, prof)

Objects are kept in /verif/build, keyed by a hash of the compiler command and
of every file the object depends on, so a stale object is never used.
"""
import concurrent.futures as cf
import hashlib, json, os, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))

# Test-only files; everything else in ruy/ is compiled.
EXCLUDE = {"gtest_wrapper.h", "benchmark.cc", "platform.cc",
           "test_overflow_dst_zero_point.cc"}
PROF = {"profiler/instrumentation.cc", "profiler/profiler.cc", "profiler/treeview.cc"}

SUT_FLAGS = ["-std=c++14", "-O2", "-g1", "-fno-pie", "-fsanitize=thread",
             "--param", "tsan-instrument-func-entry-exit=0",
             "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove",
             "-DRUY_HAVE_CPUINFO", "-Wno-psabi",
             "-DRUY_SIMULATED_CACHE_BUDGET=sim_cache_budget",
             "-include", os.path.join(HERE, "sim/hooks.h")]
FLAVOUR = {"rel": ["-DNDEBUG"], "dbg": [], "prof": ["-DNDEBUG", "-DRUY_PROFILER"]}
ISA = {"avx512": ["-mavx512f", "-mavx512vl", "-mavx512cd", "-mavx512bw", "-mavx512dq"],
       "avx2_fma": ["-mavx2", "-mfma"], "avx": ["-mavx"]}


def cpuinfo_include():
    for d in ("third_party/cpuinfo/include", "_build/_deps/cpuinfo-src/include"):
        if os.path.exists(os.path.join(REPO, d, "cpuinfo.h")):
            return os.path.join(REPO, d)
    return None


def sut_sources():
    r = []
    for f in sorted(os.listdir(os.path.join(REPO, "ruy"))):
        if not f.endswith(".cc") or f in EXCLUDE or "test" in f or "benchmark" in f:
            continue
        if "_arm" in f or f.endswith("_arm32.cc") or f.endswith("_arm64.cc"):
            continue
        r.append(f)
    return r


def units(flavour):
    """(name, source, flags) of every object of a flavour."""
    u = []
    inc = ["-I" + REPO, "-I" + os.path.join(HERE, "harness")]
    ci = cpuinfo_include()
    if ci:
        inc.append("-isystem" + ci)
    base = SUT_FLAGS + FLAVOUR[flavour] + inc
    for f in sut_sources():
        fl = list(base)
        for k in ("avx512", "avx2_fma", "avx"):
            if f.endswith("_" + k + ".cc"):
                fl += ISA[k] + ["-include", os.path.join(HERE, "sim/simd_shim.h")]
                break
        if f == "pmu.cc":
            fl += ["-include", os.path.join(HERE, "sim/perf_shim.h")]
        u.append((f[:-3], os.path.join(REPO, "ruy", f), fl))
    if flavour == "prof":
        for f in sorted(PROF):
            p = os.path.join(REPO, "ruy", f)
            if os.path.exists(p):
                u.append((f.replace("/", "_")[:-3], p, list(base)))
    for part in range(3):
        u.append(("sut_mul%d" % part, os.path.join(HERE, "harness/sut_mul.cc"),
                  base + ["-DPART=%d" % part]))
    for f in ("sut_misc", "sut_prof"):
        u.append((f, os.path.join(HERE, "harness", f + ".cc"), list(base)))
    h = ["-std=c++17", "-O2", "-g1", "-fno-pie", "-Wall", "-Wextra",
         "-I" + os.path.join(HERE, "sim"), "-I" + os.path.join(HERE, "harness")]
    if ci:
        h.append("-isystem" + ci)
    for d in ("sim", "harness"):
        for f in sorted(os.listdir(os.path.join(HERE, d))):
            if not f.endswith(".cc") or f.startswith("sut_"):
                continue
            fl = h + (["-DFLAVOR=\"%s\"" % flavour] if f == "main.cc" else [])
            if f == "runtime.cc":
                fl = fl + ["-fno-builtin", "-fno-stack-protector"]
            u.append((f[:-3], os.path.join(HERE, d, f), fl))
    return u


def digest(cmd, deps):
    h = hashlib.sha256("\0".join(cmd).encode())
    for d in deps:
        try:
            with open(d, "rb") as f:
                h.update(d.encode() + b"\0" + f.read())
        except OSError:
            h.update(d.encode() + b"\0missing")
    return h.hexdigest()


def compile_one(flavour, unit):
    name, src, flags = unit
    # Units that do not depend on the flavour are shared by all.
    key = hashlib.sha256(("\0".join([src] + flags)).encode()).hexdigest()[:12]
    obj = os.path.join(BUILD, "obj", "%s-%s.o" % (name, key))
    meta = obj + ".json"
    cmd = ["g++"] + flags + ["-c", src]
    try:
        m = json.load(open(meta))
        if os.path.exists(obj) and m["digest"] == digest(cmd, m["deps"]):
            return obj, None
    except (OSError, ValueError, KeyError):
        pass
    tmp = "%s.%d.tmp" % (obj, os.getpid())
    p = subprocess.run(cmd + ["-MD", "-MF", tmp + ".d", "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return obj, "%s\n%s" % (" ".join(cmd), p.stdout)
    if "-fsanitize=thread" in flags:
        # Only the code under test calls the checking versions.
        p = subprocess.run(["objcopy"] + ["--redefine-sym=%s=__wrap_%s" % (f, f) for f in WRAP] + [tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return obj, p.stdout
    text = open(tmp + ".d").read().replace("\\\n", " ")
    deps = sorted(set(x for x in text.split(":", 1)[1].split()
                      if x.startswith((REPO + "/", HERE + "/"))))
    os.unlink(tmp + ".d")
    os.rename(tmp, obj)
    with open(meta + ".tmp%d" % os.getpid(), "w") as f:
        json.dump({"digest": digest(cmd, deps), "deps": deps}, f)
    os.rename(meta + ".tmp%d" % os.getpid(), meta)
    return obj, None


WRAP = ("memcpy", "memset", "memmove", "memcmp")


def build(flavours, jobs=None):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    jobs = jobs or os.cpu_count() or 4
    todo = {fl: units(fl) for fl in flavours}
    objs, errors = {}, []
    work = {}
    for fl in flavours:
        for u in todo[fl]:
            work[(u[1], tuple(u[2]))] = (fl, u)
    # Longest first.
    items = sorted(work.items(), key=lambda kv: (not kv[1][1][0].startswith(("sut_mul", "runtime", "scen")), kv[0][0]))
    with cf.ThreadPoolExecutor(jobs) as ex:
        fut = {k: ex.submit(compile_one, *v) for k, v in items}
        for k, f in fut.items():
            o, e = f.result()
            objs[k] = o
            if e:
                errors.append(e)
    if errors:
        sys.stderr.write("\n".join(errors[:3]) + "\nbuild failed\n")
        return None
    out = {}
    def link(fl):
        lo = [objs[(u[1], tuple(u[2]))] for u in todo[fl]]
        exe = os.path.join(BUILD, "sim-" + fl)
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        key = hashlib.sha256()
        for o in lo:
            key.update(open(o + ".json", "rb").read() + o.encode())
        kf = exe + ".key"
        if os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key.hexdigest():
            return fl, exe, None
        cmd = ["g++", "-no-pie", "-rdynamic", "-o", tmp] + lo + ["-ldl", "-lpthread"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return fl, None, p.stdout
        os.rename(tmp, exe)
        open(kf, "w").write(key.hexdigest())
        return fl, exe, None
    with cf.ThreadPoolExecutor(jobs) as ex:
        for fl, exe, e in ex.map(link, flavours):
            if e:
                sys.stderr.write(e[-6000:] + "\nlink failed\n")
                return None
            out[fl] = exe
    return out


if __name__ == "__main__":
    r = build(sys.argv[1:] or ["rel", "dbg", "prof"])
    if not r:
        sys.exit(2)
    print(r)
