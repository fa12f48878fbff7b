"""C11: hooks of one cycle run in priority order, on the right side of the DUT."""
from .calls import *

ID = "C11"
QUICK, THOROUGH = 3000, 100000
RULE = ("a case is up to twelve driver calls on few drivers, direct or through executor groups with per-call priorities and orders, overlapping and nested, plus "
        "monitors, against one to three models with driver, agent and monitor hooks of all priorities and orders; at every hook execution no pending hook call "
        "may have a smaller priority, nor an equal one and an earlier issue, and every hook is on the side of its driver body that its own order says; "
        "non-trivial when two hook calls were pending at once")
STATE_MEASURE = "(pending hook calls, priority, order, overridden, calls of the same driver in flight)"


def gen(rng, index):
    case = gen_program(rng, monitors=rng.random() < 0.6, few_drivers=rng.random() < 0.7, max_calls=12)
    case["models"] = [gen_model(rng, case["agents"], kind="hooks") for _ in range(rng.choice([1, 2, 2, 3]))]
    for m in case["models"]:
        for t in m["targets"]:
            t["port"] = False
    gen_attach(rng, case)
    return case


def nontrivial(sim, case):
    return sim.probes.get("concurrent_hooks", 0) > 0


def run(sim, case):
    b = Calls(sim, case)
    kind, val = b.run_program()
    if kind == "exc":
        raise val
    hist = b.call_history()
    pend = []  # (mi, ti, path, cid, prio, order kind, issue seq)
    starts = {c["start"]["seq"]: cid for cid, c in hist.items() if c["start"]}
    ends = {c["end"]["seq"]: cid for cid, c in hist.items() if c["end"]}
    mon = {b.path(i, "monitors", j): (i, j) for i, a in enumerate(b.agents) for j in range(len(a["monitors"]))}
    unsure = set()
    for e in b.hist:
        if e["k"] == "issue":
            for mi, ti, t in b.targets_of(e["cid"]):
                if b.order_of(e, t) == "model_first":
                    pend.append((mi, ti, e["path"], e["cid"], b.prio_of(e, t), "mf", e["seq"]))
        elif e["k"] == "mon_end" and e["v"] is not None:
            i, j = mon[e["path"]]
            for mi, m in enumerate(b.models_spec):
                for ti, t in enumerate(m["targets"]):
                    if b.matches(t, i, "monitors", j) and (mi, 0) in e["att"]:
                        pend.append((mi, ti, e["path"], None, t["prio"], "mf", e["seq"]))
        elif e["k"] == "body_start":
            cid = starts[e["seq"]]
            left = [p for p in pend if p[3] == cid and p[5] == "mf"]
            sim.check(not left, "hook-after-body", f"the driver body of call {cid} ({e['path']}) started in cycle {e['c']} before its model-first hooks {left}")
        elif e["k"] == "body_end":
            cid = ends[e["seq"]]
            iss = hist[cid]["issue"]
            for mi, ti, t in b.targets_of(cid):
                if b.order_of(iss, t) == "dut_first":
                    pend.append((mi, ti, e["path"], cid, b.prio_of(iss, t), "df", e["seq"]))
        elif e["k"] == "hook":
            sim.check(not e["upcoming"], "hook-before-call", f"in cycle {e['c']} a hook of {e['path']} ran before calls {e['upcoming']} of the same cycle were made, "
                      "which waited for nothing: their hooks could not take part in the priority order")
            cands = [p for p in pend if p[:3] == (e["m"], e["ti"], e["path"]) and (e["cid"] is None or p[3] == e["cid"])]
            if not cands:
                early = [c for c, h in hist.items() if h["path"] == e["path"] and (e["cid"] is None or c == e["cid"])]
                sim.fail("hook-not-due", f"model {e['m']} target {e['ti']} ran for {e['path']} (call {e['cid']}) in cycle {e['c']}: not due at this point "
                         f"(calls {early}: {[(hist[c]['issue']['c'], hist[c]['issue'].get('order')) for c in early]})")
            # without arguments the call is not identified: take the one that is due first, a model-first one if either may be meant;
            # from then on the issue order of this driver's calls is not known
            me = min(cands, key=lambda p: (p[4], p[5] == "df", p[6]))
            if len({p[5] for p in cands if p[4] == me[4]}) > 1:
                unsure.add(me[2])
            if len(pend) > 1:
                sim.probe("concurrent_hooks")
            iss = hist[me[3]]["issue"] if me[3] is not None else {}
            sim.state(min(len(pend), 6), me[4] // 20, me[5], bool(iss.get("prio") is not None), bool(iss.get("order")))
            worse = [p for p in pend if p[4] < me[4]]
            sim.check(not worse, "priority-order", f"in cycle {e['c']} hook {me} (priority {me[4]}) ran while {worse} were pending")
            older = [p for p in pend if p[4] == me[4] and p[5] == me[5] and p[6] < me[6] and p[2] not in unsure]
            sim.check(not older or me[2] in unsure, "issue-order", f"in cycle {e['c']} hook {me} ran before {older} of the same priority, issued earlier")
            pend.remove(me)
    for cid, c in hist.items():
        if c["end"]:
            left = [p for p in pend if p[3] == cid]
            sim.check(not left, "hook-lost", f"call {cid} finished in cycle {c['end']['c']} but {left} never ran")
