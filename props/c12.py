"""C12: comparison verdicts are exact."""
import math

from .calls import *

ID = "C12"
QUICK, THOROUGH = 3000, 100000
RULE = ("a case is up to ten overlapping driver calls (also nested, chained, through executors, finishing out of order and in the last cycle) with planned "
        "driver results (including None, 0, empty, lists) and planned hook results (none, equal, different) of one to three models; the verdict of the run and "
        "the logged matches and mismatches are compared with the plan, under seeded garbage collection; non-trivial when a comparison was due")
STATE_MEASURE = "(comparisons of the call, calls in flight, mismatch, cycles before the end)"
RES = [None, 0, 1, "", "v", [1, 2], [], False, {"a": 1}, 2.5, 2 ** 70, 1e16]


# results that differ from the driver's in ways that are easily taken for equal
DIFF = ["diff", "diff", "next", "str", "falsy", "falsy2", "near", "deep", "repr", "tuple", "sub", "tiny"]


def different(how, r, cid, nxt):
    if how == "next":
        return nxt if nxt is not None else ["other", cid]
    if how == "str":
        return str(r)
    if how == "repr":
        return repr(r)
    if how == "falsy":
        return 0 if r is None or r else ""
    if how == "falsy2":
        return [] if r is None or r else {}
    if how == "near":
        return r + 1 if isinstance(r, (int, float)) else (r + r[:1] if isinstance(r, (str, list)) and r else [r])
    if how == "tiny":  # the smallest difference there is
        return math.nextafter(r, 1e300) if isinstance(r, float) else r + 1 if isinstance(r, int) else [*r[:-1], [r[-1]]] if isinstance(r, list) and r else ["other", cid]
    if how == "tuple":
        return tuple(r) if isinstance(r, (list, dict)) else (r,)
    if how == "sub":  # everything of the one is in the other
        return r[:-1] if isinstance(r, (list, str)) and r else {**r, "b": 2} if isinstance(r, dict) else [r, r]
    if how == "deep":
        return [r]
    return ["other", cid]


def gen(rng, index):
    case = gen_program(rng, monitors=rng.random() < 0.2, few_drivers=rng.random() < 0.5)
    case["models"] = [gen_model(rng, case["agents"], kind="hooks" if rng.random() < 0.85 else rng.choice(["ports", "mixed"])) for _ in range(rng.choice([1, 1, 2, 3]))]
    bad = rng.choice([0.0, 0.0, 0.05, 0.3])
    # results that are easily confused across calls
    few = rng.random() < 0.3
    case["res"] = []
    for cid, c in enumerate(case["calls"]):
        c["res"] = rng.choice([0, 1]) if few else float("nan") if rng.random() < 0.01 else rng.choice(RES + [cid, cid, cid, [cid], f"r{cid}"])
        case["res"].append([[rng.choice(DIFF) if rng.random() < bad else rng.choice(["none", "same", "same", "same", "equal"]) for t in m["targets"]] for m in case["models"]])
    gen_attach(rng, case)
    case["keep"] = rng.random() < 0.3
    return case


def nontrivial(sim, case):
    return sim.probes.get("comparison", 0) > 0


def run(sim, case):
    import copy

    def plan(mi, ti, cid):
        try:
            return case["res"][cid][mi][ti]
        except (IndexError, TypeError):
            raise InvalidCase()

    def hook_result(mi, ti, cid, path):
        if not isinstance(cid, int) or isinstance(cid, bool) or path not in drivers:
            return None
        p = plan(mi, ti, cid)
        r = b.calls[cid]["res"]
        if p == "none" or (p in ("same", "equal") and r is None):
            return None
        if p == "same":
            return copy.deepcopy(r)
        if p == "equal":  # equal, of another type
            return float(r) if isinstance(r, (bool, int)) else int(r) if isinstance(r, float) and r.is_integer() else {**r} if isinstance(r, dict) else copy.deepcopy(r)
        return different(p, r, cid, b.calls[(cid + 1) % len(b.calls)]["res"])
    b = Calls(sim, case, hook_result)
    drivers = {b.path(i, "drivers", j) for i, a in enumerate(b.agents) for j in range(len(a["drivers"]))}
    kind, val = b.run_program()
    hist = b.call_history()
    want, bad = [], []
    for cid, c in hist.items():
        if not b.named(cid) or not c["end"]:
            continue
        n = 0
        for mi, ti, t in b.targets_of(cid):
            if b.is_port(mi, t):
                continue
            r = hook_result(mi, ti, cid, c["path"])
            if r is not None:
                n += 1
                ok = r == b.calls[cid]["res"]
                want.append((cid, mi, ti, b.calls[cid]["res"], r, ok))
                sim.probe("comparison")
                if not ok:
                    bad.append((want[-1], c["end"]["c"]))
                    sim.fault("model_mismatch")
        sim.state(n, sum(1 for x in hist.values() if x["issue"]["seq"] < c["end"]["seq"] and (not x["end"] or x["end"]["seq"] > c["end"]["seq"])),
                  bool(bad), min(case["horizon"] - c["end"]["c"], 3))
    logs = [m for lv, m in sim.toffee_log if m.lower().startswith("match")]
    miss = [m for lv, m in sim.toffee_log if m.lower().startswith("mismatch")]
    if bad:
        sim.check(kind == "exc", "mismatch-not-failing", f"(call, model, target, DUT result, model result, equal) {bad} but the run passed; horizon {case['horizon']}")
        sim.check(miss, "mismatch-not-logged", f"mismatches {bad}, log {sim.toffee_log[-4:]}")
        end = b.dut.cycle
        first = min(c for _, c in bad)
        sim.check(end - first <= 2, "mismatch-late", f"mismatch {bad} in cycle {first}, the run ended in cycle {end}")
        for m in miss:
            sim.check(any(str(w[0][3]) in m and str(w[0][4]) in m for w in bad), "cross-talk", f"logged mismatch {m!r} is none of {bad}")
        return
    if kind == "exc":
        if sim.toffee_log and miss:
            sim.fail("false-mismatch", f"all planned comparisons are equal: {want}, but the run failed with {val!r}, logged {miss}")
        raise val
    sim.check(not miss, "false-mismatch", f"logged {miss}, planned {want}")
    sim.check(len(logs) == len(want), "comparison-count", f"{len(want)} comparisons were due ({want}), {len(logs)} are logged: {logs}")
