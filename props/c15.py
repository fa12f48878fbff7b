"""C15: executor exit conditions."""
from .exe import *

ID = "C15"
QUICK, THOROUGH = 3000, 100000
RULE = ("a case is one to three concurrent executor blocks with every exit mode, groups that end normally, with an exception or cancelled at random cycles, and "
        "later waits at random cycles; the cycle in which the block is left, the exceptions that reach it or the later waits, and the results are compared with "
        "the ends of the groups; non-trivial when groups of a block ended in different cycles or one failed")
STATE_MEASURE = "(exit mode, groups ended when the block was left, groups failed, waits)"


def gen(rng, index):
    return gen_exec(rng, fail_p=rng.choice([0.0, 0.1, 0.3]))


def nontrivial(sim, case):
    return sim.probes.get("spread", 0) + sim.probes.get("failed_group", 0) > 0


def run(sim, case):
    ex = Exec(sim, case)
    if any(c["fail"] for bl in case["blocks"] if not bl["top"] for c in bl["calls"]):
        raise InvalidCase()
    ex.run()
    for bi, bl in enumerate(case["blocks"]):
        if "begin" in ex.rec[bi]:
            check_block(sim, ex, bi, bl, ex.rec[bi])


def check_block(sim, ex, bi, bl, r):
    ex.check_groups(bi)
    ends = {}  # group -> (event, failing call)
    for key, idx in groups_of(bl).items():
        ends[key] = ex.group_end(bi, idx)
    first = min(e["c"] for e, _ in ends.values())
    last = max(e["c"] for e, _ in ends.values())
    failed = {k: (e, f) for k, (e, f) in ends.items() if f is not None}
    left = r["left"]["c"]
    exc = r.get("left_exc")
    if first != last:
        sim.probe("spread")
    if failed:
        sim.probe("failed_group", len(failed))
    sim.state(bl["exit"], sum(1 for e, _ in ends.values() if e["c"] <= left), len(failed), len(bl["wait"]))
    desc = f"block {bi} (exit={bl['exit']}) begun in cycle {r['begin']['c']}, groups ended {[(k, e['c'], f) for k, (e, f) in ends.items()]}"

    def reported(e, upto):
        """Is e the exception of a group that failed no later than `upto`?"""
        cands = [(bl["calls"][f]["fail"], f) for ev, f in failed.values() if ev["c"] <= upto]
        if isinstance(e, Boom):
            return any(k == "exc" and str(e) == f"{bi}.{f}" for k, f in cands)
        return any(k == "cancel" for k, f in cands)

    if exc is not None:
        sim.check(reported(exc, left), "wrong-exception", f"{desc}: left in cycle {left} with {exc!r}")
    if bl["exit"] == "all":
        if failed:
            sim.check(exc is not None, "exception-lost", f"{desc}: left in cycle {left} without an exception")
            sim.check(min(e["c"] for e, _ in failed.values()) <= left <= last, "wrong-exit-cycle", f"{desc}: left in cycle {left}")
        else:
            sim.check(left == last, "wrong-exit-cycle", f"{desc}: left in cycle {left}, due in {last}")
            sim.check(ex.same_results(r["results0"], bi), "wrong-results", f"{desc}: results {r['results0']}, expected {ex.want_results(bi)}")
    elif bl["exit"] == "any":
        sim.check(left == first, "wrong-exit-cycle", f"{desc}: left in cycle {left}, due in {first}")
        if all(f is not None for e, f in ends.values() if e["c"] == first):
            sim.check(exc is not None, "exception-lost", f"{desc}: left in cycle {left} without an exception")
        sim.check(exc is None or any(f is not None and e["c"] == first for e, f in ends.values()), "spurious-exception", f"{desc}: left with {exc!r}")
    else:
        sim.check(left == r["begin"]["c"], "wrong-exit-cycle", f"{desc}: left in cycle {left}")
        sim.check(exc is None, "spurious-exception", f"{desc}: left with {exc!r}")
    if bl["exit"] == "all":
        return
    for w in r["waits"]:
        sim.check("to" in w, "wait-blocked", f"{desc}: a later wait from cycle {w['from']['c']} never ended")
        if failed:
            sim.check(w["exc"] is not None, "exception-lost", f"{desc}: a wait from cycle {w['from']['c']} to {w['to']['c']} reported no exception")
            sim.check(reported(w["exc"], w["to"]["c"]), "wrong-exception", f"{desc}: a wait raised {w['exc']!r}")
            sim.check(w["to"]["c"] <= max(last, w["from"]["c"]), "wrong-exit-cycle", f"{desc}: a wait from cycle {w['from']['c']} ended in {w['to']['c']}")
        else:
            sim.check(w["exc"] is None, "spurious-exception", f"{desc}: a wait raised {w['exc']!r}")
            sim.check(w["to"]["c"] == max(last, w["from"]["c"]), "wrong-exit-cycle", f"{desc}: a wait from cycle {w['from']['c']} ended in {w['to']['c']}")
            sim.check(ex.same_results(w["results"], bi), "wrong-results", f"{desc}: results {w['results']}, expected {ex.want_results(bi)}")
