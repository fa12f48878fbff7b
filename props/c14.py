"""C14: executor groups and results."""
from .exe import *

ID = "C14"
QUICK, THOROUGH = 3000, 100000
RULE = ("a case is one to three concurrent executor blocks (and nested ones) of one to forty calls each - driver calls of two agents and plain coroutines, in explicit "
        "or default groups, with random latencies and model hooks; start and end of every call and the results dictionary are compared with the "
        "specified grouping; non-trivial when a group had several calls")
STATE_MEASURE = "(group size, position in the group, kind of call, latency, groups in the block)"


def gen(rng, index):
    return gen_exec(rng)


def nontrivial(sim, case):
    return any(len(i) > 1 for bl in case["blocks"] for i in groups_of(bl).values())


def run(sim, case):
    ex = Exec(sim, case)
    if any(c["fail"] for bl in case["blocks"] for c in bl["calls"]):
        raise InvalidCase()
    ex.run()
    for bi, bl in enumerate(case["blocks"]):
        r = ex.rec[bi]
        if "begin" not in r:
            continue
        ex.check_groups(bi)
        want = ex.want_results(bi)
        got = [w["results"] for w in r["waits"]] + ([r["results0"]] if bl["exit"] == "all" else [])
        for g in got:
            sim.check(ex.same_results(g, bi), "wrong-results", f"block {bi} (exit={bl['exit']}): results {g}, expected {want}")
