"""C01: clock waits are exact."""
from .common import *

ID = "C01"
QUICK, THOROUGH = 2500, 60000
RULE = ("a case is a random set of bundle topologies (flat, nested, SignalList, BundleList; prefix/regex/dict binding), "
        "a random forest of tasks each running a sequence of waits (bundle.step, ClockCycles on dut/pin/bundle), yields, "
        "sleeps and spawns, cancellations at arbitrary cycles, and a schedule (virtual-clock jumps, DUT stalls, forced GC); "
        "non-trivial when at least two tasks waited on the clock in the same cycle")
STATE_MEASURE = "(cycle mod 8, number of tasks waiting, kinds of waits completing together)"


def gen(rng, index):
    nb = rng.randint(1, 3)
    bundles = [{"spec": gen_bundle_spec(rng, rng.randint(0, 2), odd=True), "how": rng.choice(["prefix", "prefix", "regex", "dict"]),
                "drop": rng.choice([0, 0, 0, 0.3, 0.7, 1]), "keep": rng.randrange(20)}
               for _ in range(nb)]
    nt = rng.randint(1, 7)
    long = rng.random() < 0.03  # a long wait now and then
    tasks = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.randint(1, 6)):
            k = rng.choice(["bstep", "bstep", "cc_b", "cc_dut", "cc_pin", "yield", "spawn", "sleep"])
            if k in ("bstep", "cc_b"):
                ops.append([k, rng.choice([rng.randrange(nb), rng.randrange(12)]), rng.choice([0, 1, 1, 1, 2, 3, 5])])
            elif k in ("cc_dut", "cc_pin"):
                ops.append([k, rng.choice([0, 1, 1, 2, 4])])
            elif k == "yield":
                ops.append([k, rng.randint(1, 4)])
            elif k == "spawn":
                ops.append([k, rng.randrange(nt)])
            else:
                ops.append([k, rng.choice([0.0005, 0.02, 1.0])])
        tasks.append(ops)
    if long:
        tasks[0] = [[rng.choice(["bstep", "cc_b"]), rng.randrange(nb), rng.randint(20, 300)], ["cc_dut", rng.randint(20, 300)], ["cc_pin", rng.randint(20, 300)]]
    return {
        "bundles": bundles, "tasks": tasks,
        "roots": [[rng.randrange(nt), rng.randint(0, 4)] for _ in range(rng.randint(1, 5))],
        "cancels": [[rng.randrange(8), rng.randint(1, 8), rng.randint(0, 2)] for _ in range(rng.choice([0, 0, 1, 2]))],
        "horizon": rng.randint(4, 12), "outs": rng.choice([0, 0, 0.5, 1]),
        "mode": rng.choice(MODES), "env": rng.random() < 0.5,
    }


def nontrivial(sim, case):
    return sim.probes.get("joint_wakeup", 0) > 0


def parts(bundle, spec, prefix, pins):
    """The bundles below this one that have a pin of their own or below."""
    subs = [(getattr(bundle, n), s, f"{prefix}{n}_") for n, s in spec["sub"]]
    subs += [(getattr(bundle, n)[i], s, f"{prefix}{n}{i}_") for n, s, k in spec["blist"] for i in range(k)]
    out = []
    for b, s, p in subs:
        if pins & set(spec_pins(s, p)):
            out += [b] + parts(b, s, p, pins)
    return out


def run(sim, case):
    live = []

    def setup():
        pins = []
        for i, b in enumerate(case["bundles"]):
            own = spec_pins(b["spec"], f"b{i}_")
            if not own:
                raise InvalidCase("bundle without pins")
            # a DUT may lack some of the pins: one that is there is enough for the bundle to have a clock
            k = b.get("keep", 0) % len(own)
            pins += [p for j, p in enumerate(own) if j == k or ((j - k) * 7919 % 101) / 101 >= b.get("drop", 0)]
        dut = SimDut(sim, pins)
        for j, p in enumerate(pins):
            dut.pin(p)._out = (j * 7919 % 101) / 101 < case.get("outs", 0)
        bundles = []
        for i, b in enumerate(case["bundles"]):
            top = bind_bundle(build_bundle_class(b["spec"]), b["how"], f"b{i}_", dut)
            bundles += [top] + parts(top, b["spec"], f"b{i}_", set(pins))
        start_clock(dut)
        return dut, bundles, pins

    async def body(dut, bundles, pins):
        wake = {}
        spawned = []

        def spawn(ti, depth):
            if len(spawned) >= 24 or depth > 3:
                return
            rec = {"id": len(spawned), "task": None, "done": False, "state": None}
            spawned.append(rec)
            rec["task"] = create_task(prog(rec, case["tasks"][ti], depth, dut.cycle))

        async def wait(rec, what, n, coro):
            start = dut.cycle
            rec["state"] = (what, start, n)
            await coro
            rec["state"] = None
            now = dut.cycle
            sim.log("woke", rec["id"], what, n, start, now)
            sim.check(now == start + n, "wait-not-exact",
                      f"{what}({n}) started in cycle {start} returned in cycle {now}, expected {start + n}")
            if n:
                wake.setdefault(now, set()).add(rec["id"])
                if len(wake[now]) > 1:
                    sim.probe("joint_wakeup")
                sim.state(now % 8, len(wake[now]), what)

        async def prog(rec, ops, depth, born):
            try:
                sim.check(dut.cycle == born, "late-start", f"task spawned in cycle {born} first ran in {dut.cycle}")
                for op in ops:
                    k = op[0]
                    if k == "bstep":
                        await wait(rec, "bundle.step", op[2], bundles[op[1] % len(bundles)].step(op[2]))
                    elif k == "cc_b":
                        await wait(rec, "ClockCycles(bundle)", op[2], ClockCycles(bundles[op[1] % len(bundles)], op[2]))
                    elif k == "cc_dut":
                        await wait(rec, "ClockCycles(dut)", op[1], ClockCycles(dut, op[1]))
                    elif k == "cc_pin":
                        await wait(rec, "ClockCycles(pin)", op[1], ClockCycles(dut.pin(pins[rec["id"] % len(pins)]), op[1]))
                    elif k == "yield":
                        c = dut.cycle
                        await yields(op[1])
                        sim.check(dut.cycle == c, "stepped-over-runnable",
                                  f"the DUT was stepped from {c} to {dut.cycle} while a task only yielded")
                    elif k == "spawn":
                        spawn(op[1] % len(case["tasks"]), depth + 1)
                    elif k == "sleep":
                        await toffee.asynchronous.sleep(op[1])
                rec["done"] = True
            except asyncio.CancelledError:
                rec["done"] = True
                rec["state"] = None
                sim.log("cancelled", rec["id"], dut.cycle)
                raise

        base = dut.cycle
        for end in range(case["horizon"]):
            for ti, at in case["roots"]:
                if at == end:
                    spawn(ti % len(case["tasks"]), 0)
            for which, at, y in case["cancels"]:
                if at == end and which < len(spawned):
                    t = spawned[which]["task"]
                    if not t.done():
                        await yields(y)
                        t.cancel()
                        sim.fault("cancel_waiter")
            c = dut.cycle
            await ClockCycles(dut, 1)
            sim.check(dut.cycle == c + 1, "wait-not-exact", f"main: 1 cycle after {c} is {dut.cycle}")
        total = sum(sum(op[-1] for op in ops if op[0] in ("bstep", "cc_b", "cc_dut", "cc_pin")) for ops in case["tasks"])
        await bundles[0].step(total + 2)
        sim.check(dut.cycle == base + case["horizon"] + total + 2, "wait-not-exact", "main: long bundle.step is off")
        for rec in spawned:
            st = rec["state"]
            if st is not None and dut.cycle > st[1] + st[2]:
                sim.fail("lost-wakeup", f"{st[0]}({st[2]}) started in cycle {st[1]} has not returned in cycle {dut.cycle}")
        live.append(dut)
        return dut.cycle

    if not case["tasks"] or not case["bundles"]:
        raise InvalidCase()
    if case["env"]:
        kind, val = sim.toffee_run(body, setup, case["mode"])
    else:
        async def test():
            return await body(*setup())
        kind, val = sim.toffee_run(test, None, case["mode"])
    if kind == "exc":
        raise val
