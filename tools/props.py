"""Per-property configuration of the checks."""

RULE = ("A case is one seeded simulated execution: a generated workload, a generated "
        "configuration (scheduling strategy, faults, CPU) and all scheduling, visibility, "
        "clock and fault decisions. Non-trivial: at least one context switch, one fired "
        "fault or two operations. Distinct: different hash over all synchronization "
        "events (thread, kind, object, value read) and all observed results.")
ASSUMPTIONS = [
    "Context switches happen at synchronization operations only; races between plain accesses are reported by a happens-before detector instead.",
    "Atomic visibility follows the C++11 store-history model without load buffering (no value is read before it is stored).",
    "x86 code paths only; code compiled by gcc with thread-sanitizer instrumentation at -O2.",
]

def fl(rel=0, dbg=0, prof=0):
    """flavour: (workers, quick runs)"""
    r = {}
    for n, v in (("rel", rel), ("dbg", dbg), ("prof", prof)):
        if v:
            r[n] = {"workers": v[0], "runs": v[1]}
    return r

# Quick run counts are for all workers of a flavour and take about a minute on eight cores.
PROPS = {
    "C01": {"flavours": fl(rel=(6, 171000), dbg=(2, 48000)),
            "rule": "Workloads are sequences of multiplications on one Context."},
    "C02": {"flavours": fl(rel=(5, 150000), dbg=(2, 50000), prof=(1, 20000)),
            "rule": "Workloads are multiplications, thread-pool executions and waits whose participants touch plain memory on both sides of every hand-over."},
    "C03": {"flavours": fl(rel=(6, 183000), dbg=(2, 52000)),
            "rule": "Workloads are multiplications, thread-pool executions, waits and destructions; a run that can not finish under a fair schedule is a violation."},
    "C04": {"flavours": fl(rel=(6, 177000), dbg=(2, 50000)),
            "rule": "Workloads are sequences of executions on one thread pool with counted tasks."},
    "C05": {"flavours": fl(rel=(6, 171000), dbg=(2, 48000)),
            "rule": "Workloads create, use and destroy Contexts and thread pools at any point of their workers' idle waits."},
    "C06": {"flavours": fl(rel=(6, 228000), dbg=(2, 65000)),
            "rule": "Workloads are rounds of waiters and decrementers on counters and flags, and pool executions."},
    "C07": {"flavours": fl(rel=(6, 120000), dbg=(2, 34000)),
            "rule": "Workloads are idle periods of pool workers and callers under changing spin settings, measured on the virtual clock."},
    "C08": {"flavours": fl(rel=(6, 123000), dbg=(2, 35000)),
            "rule": "Workloads are sequences of multiplications with cacheable operands, refills announced by clearing, and budgets small enough to eject."},
    "C09": {"flavours": fl(rel=(6, 219000), dbg=(2, 62000)),
            "rule": "Workloads are sequences of cache lookups compared with a reference model, and multiplications with a small budget."},
    "C10": {"flavours": fl(rel=(6, 366000), dbg=(2, 104000)),
            "rule": "Workloads are sequences of requests and resets, with the system refusing memory at chosen points."},
    "C11": {"flavours": fl(rel=(6, 312000), dbg=(2, 88000)),
            "rule": "Workloads are multiplications and pool executions in which a chosen allocation or thread creation fails."},
    "C12": {"flavours": fl(rel=(5, 90000), dbg=(2, 31000), prof=(1, 14000)),
            "rule": "Workloads run several client threads, each with its own Context or pool."},
    "C13": {"flavours": fl(rel=(6, 168000), dbg=(2, 48000)),
            "rule": "Workloads interleave setting changes with multiplications on one Context."},
    "C14": {"flavours": fl(rel=(6, 195000), dbg=(2, 55000)),
            "rule": "Workloads are floating-point multiplications under various caller control words, checked on every participating thread."},
    "C15": {"flavours": fl(rel=(6, 465000), dbg=(2, 132000)),
            "rule": "Workloads resolve tunings while threads migrate between simulated cores and time passes."},
    "C16": {"flavours": fl(rel=(6, 186000), dbg=(2, 53000)),
            "rule": "Workloads are multiplications under generated CPU descriptions and detection failures."},
    "C17": {"flavours": fl(rel=(6, 183000), dbg=(2, 52000)),
            "rule": "Workloads are multiplications under changing thread limits; the threads that exist and that compute are counted."},
    "C18": {"flavours": fl(prof=(8, 256000)),
            "rule": "Workloads are labelled threads under profiled scopes; every sample is compared with the recorded stack histories."},
    "C19": {"flavours": fl(prof=(8, 270000)),
            "rule": "Workloads are labelled threads that start, multiply and exit around repeated profiled scopes."},
    "C24": {"flavours": fl(rel=(6, 170000), dbg=(2, 50000)),
            "rule": "Workloads are multiplications and pool executions of which some end with an exception (failing allocation or thread creation, throwing task) and which go on afterwards."},
    "C25": {"flavours": fl(rel=(6, 300000), dbg=(2, 80000)),
            "rule": "Workloads are recordings of simulated hardware events by up to three threads, with refused counters and failing or empty readings."},
}

for _p in PROPS.values():
    _p.setdefault("note", "Seeded sample of schedules, faults and workloads; no exhaustive enumeration.")

NOT_APPLICABLE = {
    "C20": "Pure function of its inputs: the arithmetic of a kernel or packing routine does not depend on schedule, time or failures, so simulating those adds nothing.",
    "C21": "Pure function of shape, kernel format, cache size and thread count: no schedule, time or failure enters the block decomposition.",
    "C22": "Pure arithmetic on single values.",
    "C23": "The ARM code is not built and can not run on this machine.",
}
