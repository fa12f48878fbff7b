"""C16: the synchronous request pipeline: one request per clock edge, in order, each exactly once."""
import copy

from .common import *

ID = "C16"
QUICK, THOROUGH = 5000, 200000
RULE = ("a case is one or two interfaces on one to three DUTs (some DUTs stepping another one, one possibly clocked by a running test), and a history of batches of requests "
        "(dictionaries with wildcards and nested values, callables, conditions that hold late, callbacks, responses, idle entries, re-used request objects), plain steps and "
        "re-bindings to the same, another or an earlier DUT, with callbacks, conditions or the DUT failing at some edge; every edge is compared with a reference "
        "pipeline; non-trivial when a request with a condition had to wait or a batch followed a re-binding or a failure")
STATE_MEASURE = "(request kind, edges waited, has callback, has response, re-bound, after a failure)"
FIELDS = ["a", "b"]


def gen_req(rng, fail_p):
    r = {"set": {}}
    for f in FIELDS:
        if rng.random() < 0.6:
            r["set"][f] = rng.randint(0, 9)
    if rng.random() < 0.3:
        r["set"]["u"] = {f: rng.randint(0, 9) for f in ("x", "y") if rng.random() < 0.6}
        if rng.random() < 0.3:
            r["set"]["u"]["*"] = rng.randint(10, 19)
    if rng.random() < 0.25:
        r["set"]["*"] = rng.randint(10, 19)
    k = rng.random()
    if k < 0.06:
        return {"idle": True}
    if k < 0.22:
        r["call"] = rng.choice(["dict", "same", "same", "none"])
    if rng.random() < 0.4:
        r["cond"] = rng.choice([["rdy", rng.randint(0, 1)], ["edge", rng.randint(0, 4)], ["args", rng.randint(1, 3)], ["rdy", 1]])
        if rng.random() < fail_p:
            r["cond_fail"] = rng.randint(0, 2)
    if rng.random() < 0.35:
        r["funcs"] = rng.choice([1, 2, 3, 1, 2, 3, 5, 8])
        r["one"] = rng.random() < 0.5
        r["same"] = rng.random() < 0.25
        if rng.random() < fail_p:
            r["func_fail"] = rng.randint(0, 2)
    if rng.random() < 0.4 and "call" not in r:
        r["resp"] = rng.choice(["self", "self", "sub", "other", "list", "list1", "twice"])
    return r


def gen(rng, index):
    fail_p = rng.choice([0.0, 0.0, 0.15])
    nd = rng.choice([1, 1, 2, 3])
    ops = []
    for _ in range(rng.randint(2, 9)):
        k = rng.choice(["batch"] * 5 + ["rebind", "rebind", "step", "again", "fault" if fail_p else "batch"])
        o = {"k": k, "b": rng.randint(0, 1), "d": rng.randrange(nd), "n": rng.randint(1, 3)}
        if k == "batch":
            o["reqs"] = [gen_req(rng, fail_p) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6] if rng.random() < 0.97 else [15, 40, 70]))]
            o["bare"] = rng.random() < 0.3
            o["dup"] = rng.random() < 0.15
        ops.append(o)
    return {"nd": nd, "ops": ops, "two": rng.random() < 0.4, "wave": [rng.randint(0, 1) for _ in range(rng.randint(2, 9))] + [1],
            "couple": [[rng.randrange(nd), rng.randrange(nd)]] if nd > 1 and rng.random() < 0.5 else [], "clocked": rng.random() < 0.3,
            "how": rng.choice(["prefix", "regex", "dict"])}


def nontrivial(sim, case):
    return sim.probes.get("waited", 0) + sim.probes.get("after_rebind", 0) + sim.probes.get("after_failure", 0) > 0


class Boom(Exception):
    pass


def run(sim, case):
    pins = ["io_a", "io_b", "io_rdy", "io_u_x", "io_u_y"]
    Sub = type("Sub", (Bundle,), {"x": Signal(), "y": Signal()})
    Top = type("Top", (Bundle,), {"a": Signal(), "b": Signal(), "rdy": Signal(), "u": Sub.from_prefix("u_")})
    inputs = [p for p in pins if p != "io_rdy"]
    duts, bundles, cur = [], [], []
    busy = {"edge": None}
    wave = case["wave"] or [1]

    def new_dut(i):
        d = SimDut(sim, pins, name=f"d{i}")
        d.io_rdy._out = True

        def drive(d):
            d.io_rdy._v = wave[d.cycle % len(wave)]
            for a, b in case["couple"]:
                if duts[a] is d and a < b < len(duts):
                    duts[b].Step(1)
        d.on_step_func = drive
        d.post_step_func = lambda d: settle_edge()
        d.StepRis(lambda c, i=i: edge_begin(i))
        return d

    def state(d):
        return {p: d.pin(p)._v for p in pins}

    # the batch in progress: reference pipeline, advanced by the edges of the bundle's DUT
    ref = {}

    def edge_begin(i):
        """First edge callback of every DUT: the pins the pipeline may change are noted."""
        d = duts[i]
        if ref and ref["dut"] is d:
            ref["edge"] = {"cycle": d.cycle, "pins": state(d), "calls": [], "failed": False}
        else:
            others.append((d, d.cycle, state(d)))

    others = []

    def settle_edge():
        """Judge the last edge of the batch's DUT; other DUTs must not have been written by their edges."""
        for d, c, before in others:
            sim.check(state(d) == before, "foreign-write", f"{d.dname} edge {c}: pins changed although no request was due there: {before} -> {state(d)}")
        others.clear()
        e = ref.get("edge")
        if not e:
            return
        ref["edge"] = None
        d, want = ref["dut"], dict(e["pins"])
        calls, q = [], ref["queue"]
        if q:
            r = q[0]
            if r["spec"].get("idle"):
                q.pop(0)
            elif r["spec"].get("call") == "none":
                calls.append(("call", r["id"], e["cycle"]))
                q.pop(0)
            else:
                if r["spec"].get("call") and not r["called"]:
                    calls.append(("call", r["id"], e["cycle"]))
                    r["called"] = True
                if cond_holds(r, d, e["cycle"]):
                    q.pop(0)
                    want = applied(r, want)
                    for j in range(r["spec"].get("funcs", 0)):
                        j = 0 if r["spec"].get("same") else j
                        calls.append(("func", r["id"], j, e["cycle"]))
                    if r["spec"].get("resp"):
                        ref["resp"].append((r, e["cycle"], want))
                    sim.state("req", r["waited"], r["spec"].get("funcs", 0), r["spec"].get("resp"), ref["rebound"], ref["failed"])
                    sim.log("applied", d.dname, e["cycle"], r["id"])
                else:
                    r["waited"] += 1
                    sim.probe("waited")
        if e["failed"]:
            return  # the failing request itself is not specified further
        sim.check(e["calls"] == calls, "wrong-callbacks", f"{d.dname} edge {e['cycle']}: callbacks {e['calls']}, expected {calls}")
        sim.check(state(d) == want, "wrong-pins", f"{d.dname} edge {e['cycle']}: pins {state(d)}, expected {want}")

    def cond_holds(r, d, cycle):
        c = r["spec"].get("cond")
        if c is None:
            return True
        if c[0] == "rdy":
            return d.io_rdy._v == c[1] or r["waited"] >= 12
        if c[0] == "edge":
            return r["waited"] >= c[1]
        return cycle % 4 == c[1] or r["waited"] >= 12

    def applied(r, pins):
        """The pins after the data of request r have been applied."""
        want = dict(pins)
        s = r["spec"]["set"]
        if "*" in s:
            want.update({p: s["*"] for p in inputs})
        u = s.get("u", {})
        if "*" in u:
            want.update({"io_u_x": u["*"], "io_u_y": u["*"]})
        want.update({f"io_{k}": v for k, v in s.items() if k in FIELDS})
        want.update({f"io_u_{k}": v for k, v in u.items() if k != "*"})
        return want

    def note(what):
        e = ref.get("edge")
        sim.check(e is not None, "stray-call", f"{what} ran outside an edge of the interface's DUT")
        e["calls"].append(what)

    def make(rid, spec, b):
        if spec.get("idle"):
            return None
        d = copy.deepcopy(spec["set"])
        bundle = bundles[b]

        def cond(cycle, bd, args):
            sim.check(bd is bundle, "wrong-bundle", "condition called with another interface")
            sim.check(ref.get("edge") is not None, "stray-call", "a condition was evaluated outside an edge of the interface's DUT")
            sim.check(cycle == ref["edge"]["cycle"], "wrong-cycle", f"condition called with cycle {cycle} in {ref['edge']['cycle']}")
            sim.check(args == (["args", rid] if spec["cond"][0] == "args" else None), "wrong-arguments", f"condition got {args}")
            now = ref["queue"][0]
            sim.check(now["id"] == rid, "out-of-order", f"the condition of request {rid} was evaluated while {now['id']} is due")
            if spec.get("cond_fail") is not None and now["waited"] == spec["cond_fail"]:
                ref["edge"]["failed"] = True
                sim.fault("condition_error")
                raise Boom(f"condition of {rid}")
            return cond_holds(now, ref["dut"], cycle)
        if spec.get("cond"):
            d["__condition_func__"] = cond
            if spec["cond"][0] == "args":
                d["__condition_args__"] = ["args", rid]

        def func(j):
            def f(cycle, bd):
                sim.check(bd is bundle, "wrong-bundle", "callback called with another interface")
                note(("func", rid, j, cycle))
                now = ref["queue"][0]
                if now["id"] == rid and not ref["edge"]["failed"]:
                    want = applied(now, ref["edge"]["pins"])
                    sim.check(state(ref["dut"]) == want, "callback-too-early", f"callback of request {rid}: pins {state(ref['dut'])}, the request's data give {want}")
                if spec.get("func_fail") == j:
                    ref["edge"]["failed"] = True
                    sim.fault("callback_error")
                    raise Boom(f"callback {j} of {rid}")
                return (rid, j)
            return f
        n = spec.get("funcs", 0)
        if n:
            d["__funcs__"] = func(0) if n == 1 and spec["one"] else [func(0)] * n if spec.get("same") else [func(j) for j in range(n)]
        resp = spec.get("resp")
        if resp:
            other = bundles[-1]
            d["__return_bundles__"] = {"self": bundle, "sub": bundle.u, "other": other, "list": [bundle, bundle.u], "list1": [bundle], "twice": [bundle.u, bundle, bundle.u]}[resp]
        if spec.get("call"):
            kept.append((d, copy.deepcopy(spec["set"])))

            def call(cycle, bd):
                sim.check(bd is bundle, "wrong-bundle", "callable called with another interface")
                note(("call", rid, cycle))
                return None if spec["call"] == "none" else d if spec["call"] == "same" else dict(d)
            return call
        return d

    def shape(resp, b, snap, target):
        def top(s):
            return {"a": s["io_a"], "b": s["io_b"], "rdy": s["io_rdy"], "u": sub(s)}

        def sub(s):
            return {"x": s["io_u_x"], "y": s["io_u_y"]}
        if resp in ("self", "list1"):
            return top(snap)
        if resp == "sub":
            return sub(snap)
        if resp == "list":
            return [top(snap), sub(snap)]
        if resp == "twice":
            return [sub(snap), top(snap), sub(snap)]
        return top(target)

    memory = {}
    kept = []  # dictionaries returned by callables, and the data they hold

    def batch(o, b):
        d = duts[cur[b]]
        if o["k"] == "again":
            if b not in memory:
                return
            plan, reqs = memory[b]
        else:
            plan, reqs = list(enumerate(o["reqs"])), None
            if len(plan) > 1 and o["dup"]:
                plan.append(plan[0])
        ref.clear()
        ref.update(dut=d, edge=None, resp=[], rebound=b in rebound, failed=b in failed)
        ref["queue"] = [{"id": rid, "spec": s, "waited": 0, "called": False} for rid, s in plan]
        if reqs is None:
            made = {rid: make(rid, s, b) for rid, s in plan}
            reqs = [made[rid] for rid, _ in plan]
        memory[b] = (plan, reqs)
        before = [{k: copy.deepcopy(v) for k, v in r.items() if not k.startswith("__")} if isinstance(r, dict) else None for r in reqs]
        if b in rebound:
            sim.probe("after_rebind")
        if b in failed:
            sim.probe("after_failure")
        err = None
        start = d.cycle
        arg = reqs[0] if len(reqs) == 1 and o.get("bare") else reqs
        if arg is None:
            arg = reqs
        try:
            ret = bundles[b].process_requests(arg)
        except (Boom, OSError) as e:
            err = e
        broken = bool(ref["edge"] and ref["edge"]["failed"]) or any(x.fail_at == x.cycle for x in duts)
        settle_edge()
        sim.log("batch", b, d.dname, start, d.cycle, len(reqs), repr(err))
        sim.check((err is not None) == broken, "failure-lost", f"a callback, condition or step failed: {broken}, the caller got {err!r}")
        left = [r["id"] for r in ref["queue"]]
        resp = ref["resp"]
        ref.clear()
        if err is not None:
            failed.add(b)
            memory.pop(b, None)
            for x in duts:
                x.fail_at = None
            return
        sim.check(not left, "returned-early", f"process_requests returned at edge {d.cycle} with requests {left} not applied")
        after = [{k: v for k, v in r.items() if not k.startswith("__")} if isinstance(r, dict) else None for r in reqs]
        sim.check(after == before, "caller-data", f"the caller's requests changed from {before} to {after}")
        for d, data in kept:
            now = {k: v for k, v in d.items() if not k.startswith("__")}
            sim.check(now == data, "caller-data", f"a dictionary returned by a callable changed from {data} to {now}")
        sim.check(len(ret) == len(resp), "wrong-responses", f"{len(ret)} responses to {len(resp)} requests that asked for one: {ret}")
        for got, (r, c, snap) in zip(ret, resp):
            s = r["spec"]
            n = s.get("funcs", 0)
            fr = [(r["id"], 0 if s.get("same") else j) for j in range(n)]
            fr = None if n == 0 else fr[0] if n == 1 else fr
            sim.check(got["cycle"] == c, "wrong-response-cycle", f"response of request {r['id']}: cycle {got['cycle']}, applied in {c}")
            sim.check(got["__funcs_return__"] == fr, "wrong-func-return", f"request {r['id']}: {got['__funcs_return__']}, expected {fr}")
            if s["resp"] == "other" and bundles[-1] is not bundles[b] and cur[-1] != cur[b]:
                continue  # another DUT's pins: their value at that edge is not tracked
            want = shape(s["resp"], b, snap, snap)
            sim.check(got["data"] == want, "wrong-response", f"request {r['id']} at edge {c}: response {got['data']}, expected {want}")

    rebound, failed = set(), set()

    def op(o):
        b = o["b"] % len(bundles)
        if o["k"] in ("batch", "again"):
            batch(o, b)
        elif o["k"] == "rebind":
            bundles[b].bind(duts[o["d"]])
            cur[b] = o["d"]
            rebound.add(b)
            memory.pop(b, None)
            sim.fault("rebind")
        elif o["k"] == "step":
            duts[o["d"]].Step(o["n"])
            settle_edge()
        elif o["k"] == "fault":
            d = duts[o["d"]]
            d.fail_at = d.cycle + o["n"]

    def guarded(o):
        try:
            op(o)
        except OSError:
            # a plain step of a failing DUT
            for x in duts:
                x.fail_at = None

    def setup():
        for i in range(case["nd"]):
            duts.append(new_dut(i))
        for _ in range(2 if case["two"] else 1):
            bundles.append(bind_bundle(Top, case["how"], "io_", duts[0]))
            cur.append(0)

    if not case["clocked"]:
        setup()
        for o in case["ops"]:
            guarded(o)
        return

    async def test():
        setup()
        start_clock(duts[0])
        for o in case["ops"]:
            if o["k"] == "fault":
                continue
            op(o)
            await ClockCycles(duts[0], o["n"])
            settle_edge()
    kind, val = sim.toffee_run(test)
    if kind == "exc":
        raise val
