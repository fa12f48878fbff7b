"""C10: driver calls reach the reference model exactly once with exact arguments."""
from .calls import *

ID = "C10"
QUICK, THOROUGH = 3000, 100000
RULE = ("a case is one to three agents whose drivers have ten kinds of signatures, one to six models with driver/agent hooks or ports in every matching "
        "style, and up to ten driver calls (positional, keyword, defaulted; concurrent, overlapping, nested, chained, or through an executor); what every hook "
        "and port received, and when, and what each caller got back is compared with the specification; non-trivial when a call was delivered")
STATE_MEASURE = "(signature, target kind and style, hook order, calls in flight)"


def gen(rng, index):
    case = gen_program(rng, monitors=rng.random() < 0.3)
    case["models"] = [gen_model(rng, case["agents"]) for _ in range(rng.choice([1, 1, 2, 2, 3, 3, 6]))]
    gen_attach(rng, case)
    return case


def nontrivial(sim, case):
    return sim.probes.get("delivered", 0) > 0


def run(sim, case):
    b = Calls(sim, case)
    kind, val = b.run_program()
    if kind == "exc":
        raise val
    hist = b.call_history()
    last = case["horizon"]
    expect = {}
    for cid, c in hist.items():
        iss = c["issue"]
        flight = sum(1 for x in hist.values() if x["issue"]["seq"] < iss["seq"] and (x["end"] is None or x["end"]["seq"] > iss["seq"]))
        for mi, ti, t in b.targets_of(cid):
            port = b.is_port(mi, t)
            sim.state(b.agents[b.calls[cid]["a"]]["drivers"][b.calls[cid]["d"]]["sig"], t["t"], t["style"], port, t["order"], min(flight, 4))
            if port or b.order_of(iss, t) == "model_first":
                when = iss["c"]
            elif c["end"] is not None:
                when = c["end"]["c"]
            else:
                continue
            p = b.payload(cid, t, port)
            if not port and t["t"] == "agent":
                key, v = p
            else:
                key, v = (c["path"] if not port else None), p
            order = iss["seq"]
            expect.setdefault((mi, ti), []).append((when, order, key, v, cid))
        # the body ran once with these arguments and its value came back
        if c["end"]:
            sig = b.agents[b.calls[cid]["a"]]["drivers"][b.calls[cid]["d"]]["sig"]
            sim.check(same(c["end"]["args"], bind(sig, b.calls[cid]["args"], b.calls[cid]["kw"])), "driver-arguments",
                      f"call {cid}: body got {c['end']['args']}")
        n = len(b.of("body_start", cid=cid))
        sim.check(n == 1 or (n == 0 and iss["c"] == last), "driver-body-count", f"call {cid}: driver body ran {n} times")
        if c["end"]:
            sim.check(c["end"]["c"] == c["start"]["c"] + b.calls[cid]["lat"] or b.calls[cid]["nest"] >= 0, "driver-latency", f"call {cid}: {c}")
        if c["ret"]:
            want = b.calls[cid]["res"]
            sim.check(same(c["ret"]["v"], want), "wrong-return", f"call {cid} of {c['path']} returned {c['ret']['v']!r}, the driver body returned {want!r}")
    for mi, m in enumerate(case["models"]):
        for ti, t in enumerate(m["targets"]):
            if t["t"] == "monitor":
                continue
            mons = {b.path(i, "monitors", j) for i, a in enumerate(case["agents"]) for j in range(len(a["monitors"]))}
            want = sorted(expect.get((mi, ti), []), key=lambda x: x[1])
            if b.is_port(mi, t):
                got = [(e["c"] if e["live"] else None, None, e["v"]) for e in b.of("port", m=mi, ti=ti) if not (t["t"] == "agent" and e["v"][0] in mons)]
                ordered = True
            else:
                got = [(e["c"], e["path"], e["v"]) for e in b.of("hook", m=mi, ti=ti) if e["path"] not in mons]
                ordered = False
            left = list(want)
            for k, (c, key, v) in enumerate(got):
                hit = [w for w in left if w[2] == key and same(w[3], v)]
                name = f"model {mi} {t['t']} {'port' if ordered else 'hook'} ({t['style']})"
                sim.check(hit, "wrong-delivery", f"{name} received {key} {v!r} in cycle {c}; outstanding for it: {left}")
                # equal payloads (calls without arguments) may be delivered in either order when their drivers overlap
                w = next((x for x in hit if x[0] == c), hit[0])
                sim.check(c is None or w[0] == c, "wrong-cycle", f"{name} received call {w[4]} {v!r} in cycle {c}, due in cycle {w[0]}")
                if ordered:
                    sim.check(w[1] == left[0][1] or same(left[0][3], v), "wrong-order", f"{name} received call {w[4]} before {left[0][4]}")
                left.remove(w)
                sim.probe("delivered")
            sim.check(not left, "missing-delivery", f"model {mi} target {t['t']} ({t['style']}, {t['order']}) never received {left}; the run ended in cycle {last}")
