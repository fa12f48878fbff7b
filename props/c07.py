"""C07: signal triggers fire at exactly the first matching cycle."""
from .common import *

ID = "C07"
QUICK, THOROUGH = 4000, 120000
RULE = ("a case is a set of random multi-bit waveforms produced by the DUT, and concurrent tasks that start trigger waits (Value, AllValid, Condition on "
        "pin/bundle/dut, Change, RisingEdge, FallingEdge; several delays) in chosen cycles, one after another, some cancelled or timed out; each return "
        "cycle is compared with the first matching cycle of the recorded waveform; non-trivial when a trigger had to wait at least two cycles")
STATE_MEASURE = "(trigger, delay, cycles waited)"


def gen(rng, index):
    n = rng.randint(6, 24)
    long = rng.random() < 0.04  # waits of hundreds of cycles now and then
    if long:
        n = rng.randint(60, 400)
    waves = []
    nw = rng.randint(1, 4) if rng.random() < 0.95 else rng.randint(5, 9)
    for _ in range(nw):
        hi = rng.choice([1, 1, 2, 3])
        scale = rng.choice([1, 1, 1, 2, 256, 1000, 2 ** 31, 2 ** 64 - 1])
        p = rng.choice([0.2, 0.5, 0.9]) if not long else rng.choice([0.002, 0.01, 0.05])
        w, v = [], rng.randint(0, hi)
        for _ in range(n + 1):
            if rng.random() < p:
                v = rng.randint(0, hi)
            w.append(v * scale)
        waves.append(w)
    tasks = []
    for _ in range(rng.randint(1, 6)):
        ops = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(["value", "valid", "cond", "change", "rise", "fall", "rise", "fall"])
            ops.append([k, rng.randrange(max(4, nw)), rng.choice([0, 1, 2, 3] + [x for w in waves for x in w[:3]]), rng.choice([1, 1, 0, 2, 3] + [rng.randint(4, n)]), rng.choice(["pin", "bundle", "dut"]),
                        rng.choice([-1, -1, -1, 0.02])])
        tasks.append([rng.randint(0, 4), rng.randint(0, 2), ops])
    return {"waves": waves, "tasks": tasks, "cancels": [[rng.randrange(6), rng.randint(0, n)] for _ in range(rng.choice([0, 0, 1, 2]))],
            "mode": rng.choice(MODES)}


def nontrivial(sim, case):
    return sim.probes.get("waited", 0) > 0


def run(sim, case):
    waves = [w for w in case["waves"] if w]
    if not waves:
        raise InvalidCase()
    n = min(len(w) for w in waves) - 1
    names = [f"io_s{i}" for i in range(len(waves))]

    async def test():
        dut = SimDut(sim, names)

        def drive(d):
            for i, w in enumerate(waves):
                getattr(d, names[i])._v = w[min(d.cycle, n)]
        drive(dut)
        dut.on_step_func = drive
        start_clock(dut)
        bundle = type("IO", (Bundle,), {f"s{i}": Signal() for i in range(len(waves))}).from_prefix("io_").bind(dut)
        states = {}

        def first(lo, pred):
            for c in range(lo, n + 1):
                if pred(c):
                    return c
            return None

        async def prog(ti, start, y, ops):
            await ClockCycles(dut, start)
            await yields(y)
            for k, p, v, delay, item, to in ops:
                p %= len(waves)
                w, pin, c0 = waves[p], dut.pin(names[p]), dut.cycle
                if c0 > n:
                    return
                kw = {} if delay == 1 and (v + c0) % 2 else {"delay": delay}
                if k == "value":
                    exp, co = first(c0 + delay, lambda c: w[c] == v), Value(pin, v, **kw)
                elif k == "valid":
                    ps = sorted({p, v % len(waves)}) if item != "dut" else [(p + q) % len(waves) for q in range(len(waves))]
                    exp = first(c0 + delay, lambda c: all(waves[q][c] != 0 for q in ps))
                    co = AllValid(*[dut.pin(names[q]) for q in ps], **kw)
                elif k == "cond":
                    # conditions answer with a bool, a number or any other object
                    ans = {0: bool, 1: lambda x: 7 if x else 0, 2: lambda x: [x] if x else None, 3: lambda x: "no" if x else "", 4: lambda x: (0,) if x else [], 5: lambda x: -0.5 if x else 0.0}[(v + c0 + ti) % 6]
                    exp = first(c0 + delay, lambda c: w[c] >= v)
                    tgt = {"pin": pin, "bundle": bundle, "dut": dut}[item]
                    f = {"pin": lambda x: ans(x.value >= v), "bundle": lambda b: ans(b[f"s{p}"].value >= v),
                         "dut": lambda d: ans(d.pin(names[p]).value >= v)}[item]
                    co = Condition(tgt, f, **kw)
                elif k == "change":
                    exp, co = first(c0 + 1, lambda c: w[c] != w[c0]), Change(pin)
                elif k == "rise":
                    exp, co = first(c0 + 1, lambda c: w[c - 1] == 0 and w[c] != 0), RisingEdge(pin)
                else:
                    exp, co = first(c0 + 1, lambda c: w[c - 1] != 0 and w[c] == 0), FallingEdge(pin)
                states[ti] = (k, p, v, delay, c0, exp)
                try:
                    if to > 0:
                        await asyncio.wait_for(co, to)
                    else:
                        await co
                except TimeoutError:
                    sim.fault("trigger_timeout")
                    now = dut.cycle
                    sim.check(exp is None or now <= exp, "missed", f"{k} on {w[:n + 1]} from cycle {c0} (v={v}, delay={delay}) should have "
                              f"fired in cycle {exp}, it timed out in cycle {now}")
                    states.pop(ti)
                    continue
                now = dut.cycle
                sim.log(ti, k, c0, now)
                sim.state(k, delay, now - c0)
                if now - c0 >= 2:
                    sim.probe("waited")
                states.pop(ti)
                if now > n and exp is None:
                    return
                sim.check(now == exp, "wrong-cycle", f"{k} on {w[:n + 1]} from cycle {c0} (v={v}, delay={delay}, item={item}) "
                          f"fired in cycle {now}, expected {exp}")

        ts = [create_task(prog(i, *t)) for i, t in enumerate(case["tasks"])]
        for c in range(n + 1):
            for which, at in case["cancels"]:
                if at == c and which < len(ts) and not ts[which].done():
                    ts[which].cancel()
                    states.pop(which, None)
                    sim.fault("cancel_trigger")
            await ClockCycles(dut, 1)
        await yields(6)
        for t in ts:
            if t.done() and not t.cancelled():
                t.result()
        for ti, (k, p, v, delay, c0, exp) in states.items():
            if not ts[ti].done():
                sim.check(exp is None, "missed", f"{k} on {waves[p][:n + 1]} from cycle {c0} (v={v}, delay={delay}) should have fired in cycle {exp}")

    kind, val = sim.toffee_run(test, None, case["mode"])
    if kind == "exc":
        raise val
