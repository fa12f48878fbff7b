"""C24: gathering, events and sleeps."""
from .common import *

ID = "C24"
QUICK, THOROUGH = 3000, 150000
RULE = ("a case is a forest of nested gathers (none to two hundred members, some failing) whose leaves wait on the clock, yield, sleep, wait on events or queues, while other tasks "
        "set, pulse and clear the events and waits time out or are cancelled; start and end cycles, results, exceptions, wake-ups and sleeping times are compared with a reference "
        "model; non-trivial when a gather had to wait for members that end in different cycles or an event woke several tasks")
STATE_MEASURE = "(members, nesting, members that ended in the cycle of the call, failed; waiters woken together; sleeping time)"


class Boom(Exception):
    pass


def gen_leaf(rng, big):
    ops = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3]) if not big else rng.choice([0, 0, 1])):
        k = rng.choice(["clock", "clock", "yield", "sleep", "event", "event", "queue", "evto", "evcancel"])
        ops.append({"clock": ["clock", rng.randint(0, 3)], "yield": ["yield", rng.randint(1, 4)], "sleep": ["sleep", rng.choice([0, 0, 0.0005, 0.002, 0.01, 0.05])],
                    "event": ["event", rng.randrange(3)], "queue": ["queue", rng.randint(0, 2)],
                    "evto": ["evto", rng.randrange(3), rng.choice([0.001, 0.01, 0.03])], "evcancel": ["evcancel", rng.randrange(3), rng.randint(0, 2), rng.randint(0, 3)]}[k])
    return {"ops": ops, "res": rng.choice(["id", "id", "none", "same", "list", "exc"])}


def gen_node(rng, depth):
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 8]) if rng.random() > 0.03 else rng.randint(20, 200)
    kids = [gen_node(rng, depth - 1) if depth and rng.random() < 0.25 else gen_leaf(rng, n > 15) for _ in range(n)]
    return {"kids": kids}


def gen(rng, index):
    n = rng.randint(4, 12)
    return {"roots": [[rng.randint(0, 4), rng.randint(0, 3), gen_node(rng, 2), rng.choice([-1, -1, rng.randrange(30)])] for _ in range(rng.randint(1, 3))],
            "sets": [[rng.randint(0, n), rng.randint(0, 4), rng.randrange(3), rng.choice(["set", "pulse", "pulse", "clear"])] for _ in range(rng.randint(0, 10))],
            "mode": rng.choice(MODES)}


def nontrivial(sim, case):
    return sim.probes.get("waited", 0) > 0 or sim.probes.get("woken_together", 0) > 0


def leaves(node):
    return [node] if "kids" not in node else [x for k in node["kids"] for x in leaves(k)]


def run(sim, case):
    if not case["roots"]:
        raise InvalidCase()
    timers = case["sched"].get("dt", 0) > 0
    Event_, gather_, sleep_ = toffee.Event, toffee.gather, toffee.sleep

    async def test():
        dut = SimDut(sim, ["io_a"])
        start_clock(dut)
        loop = asyncio.get_running_loop()
        sleeping = []

        class Ev:
            def __init__(self):
                self.real, self.flag, self.waiters, self.woken = Event_(), False, [], []

            def set(self):
                self.real.set()
                self.flag = True
                if len(self.waiters) > 1:
                    sim.probe("woken_together")
                sim.state("woken", len(self.waiters))
                for w in self.waiters:
                    w["at"] = dut.cycle
                    self.woken.append(w)
                self.waiters = []

            def clear(self):
                self.real.clear()
                self.flag = False

            async def wait(self):
                w = {"at": None}
                if self.flag:
                    w["at"] = dut.cycle
                    self.woken.append(w)
                else:
                    self.waiters.append(w)
                try:
                    await self.real.wait()
                except BaseException:
                    w["gone"] = True
                    self.waiters = [x for x in self.waiters if x is not w]
                    raise
                w["gone"] = True
                sim.check(w["at"] is not None, "woken-without-set", f"a task waiting for an event resumed in cycle {dut.cycle}, nobody has set the event")
                sim.check(w["at"] == dut.cycle, "woken-late", f"a task whose event was set in cycle {w['at']} resumed in cycle {dut.cycle}")

        events = [Ev() for _ in range(3)]
        count = [0]

        async def napping(d):
            if not timers:
                d = 0
            t0 = loop.time()
            me = [t0 + d, False]
            sleeping.append(me)
            await sleep_(d)
            me[1] = True
            now = loop.time()
            sim.check(now - t0 >= d - 1e-6, "slept-too-short", f"sleep({d}) ended after {now - t0}")
            for other in sleeping if d else ():
                sim.check(other[1] or other[0] >= me[0] - 1e-6, "sleep-overtaken", f"a sleep until {me[0]} ended before one until {other[0]}")
            sim.state("slept", d)

        async def body(leaf, rec):
            rec["start"] = dut.cycle
            for op in leaf["ops"]:
                k = op[0]
                if k == "clock":
                    await ClockCycles(dut, op[1])
                elif k == "yield":
                    await yields(op[1])
                elif k == "sleep":
                    await napping(op[1])
                elif k == "event":
                    await events[op[1]].wait()
                elif k == "queue":
                    q = Queue()

                    async def feed():
                        await ClockCycles(dut, op[1])
                        await q.put(7)
                    create_task(feed())
                    c = dut.cycle
                    got = await q.get()
                    sim.check(got == 7 and dut.cycle == c + op[1], "wrong-item", f"an item put in cycle {c + op[1]} was received in cycle {dut.cycle}: {got}")
                elif k == "evto":
                    if timers:
                        try:
                            await asyncio.wait_for(events[op[1]].wait(), op[2])
                        except TimeoutError:
                            sim.fault("wait_timeout")
                elif k == "evcancel":
                    t = create_task(events[op[1]].wait())
                    await ClockCycles(dut, op[2])
                    await yields(op[3])
                    if not t.done():
                        sim.fault("wait_cancelled")
                    t.cancel()
                    try:
                        await t
                    except asyncio.CancelledError:
                        pass
            rec["end"] = dut.cycle
            if leaf is rec.get("fails"):
                sim.fault("member_fails")
                rec["exc"] = Boom(rec["n"])
                raise rec["exc"]
            rec["val"] = {"id": rec["n"], "none": None, "same": 5, "list": [rec["n"]], "exc": ValueError(rec["n"])}[leaf["res"]]
            return rec["val"]

        async def node(spec, rec, fails):
            rec["start"] = called = dut.cycle
            recs = []
            coros = []
            for k in spec["kids"]:
                count[0] += 1
                r = {"n": count[0], "start": None, "end": None, "exc": None, "fails": fails}
                recs.append(r)
                coros.append(node(k, r, fails) if "kids" in k else body(k, r))
            try:
                got = await gather_(*coros)
            except Boom as e:
                rec["exc"], rec["end"] = e, dut.cycle
                sim.check(any(r["exc"] is e for r in recs), "wrong-exception", f"gather raised {e!r}, which none of its members has raised")
                for r in recs:
                    sim.check(r["start"] == called, "not-started", f"member {r['n']} of a gather called in cycle {called} was started in cycle {r['start']}")
                late = [r for r in recs if r["end"] is None]
                early = max(r["end"] for r in recs if r["end"] is not None)
                sim.check(dut.cycle == early or late, "failed-late", f"the members of a gather ended in cycles {[r['end'] for r in recs]}, its failure was reported in cycle {dut.cycle}")
                pending.append(recs)
                raise
            rec["end"] = dut.cycle
            for r in recs:
                sim.check(r["exc"] is None, "failure-swallowed", f"member {r['n']} of a gather failed, the gather returned {got!r:.200}")
                sim.check(r["start"] == called, "not-started", f"member {r['n']} of a gather called in cycle {called} was started in cycle {r['start']}")
                sim.check(r["end"] is not None, "returned-early", f"a gather returned in cycle {dut.cycle}, its member {r['n']} has not ended")
            last = max([r["end"] for r in recs], default=called)
            sim.check(last == dut.cycle, "wrong-cycle", f"a gather whose last member ended in cycle {last} returned in cycle {dut.cycle}")
            want = [r["val"] for r in recs]
            sim.check(type(got) is list and len(got) == len(want) and all(a is b or a == b for a, b in zip(got, want)), "wrong-results",
                      f"a gather of members returning {want!r:.200} returned {got!r:.200}")
            if len({r["end"] for r in recs}) > 1:
                sim.probe("waited")
            sim.state("gather", len(recs), any("kids" in k for k in spec["kids"]), sum(r["end"] == called for r in recs))
            rec["val"] = got
            return got

        pending = []
        results = []

        async def root(at, y, spec, fail):
            await ClockCycles(dut, at)
            await yields(y)
            ls = leaves(spec)
            rec = {"n": 0, "start": None, "end": None, "exc": None}
            try:
                await node(spec, rec, ls[fail % len(ls)] if fail >= 0 and ls and spec["kids"] else None)
            except Boom:
                pass
            sim.log("root", rec["start"], rec["end"], rec["exc"] is None)
            results.append(rec)

        async def setter(at, y, e, what):
            await ClockCycles(dut, at)
            await yields(y)
            ev = events[e % 3]
            if what == "clear":
                ev.clear()
            else:
                ev.set()
                if what == "pulse":
                    ev.clear()

        tasks = [create_task(root(*r)) for r in case["roots"]] + [create_task(setter(*s)) for s in case["sets"]]
        before = loop.time()
        horizon = max([r[0] for r in case["roots"]] + [s[0] for s in case["sets"]]) + 2
        for c in range(1500):
            start = loop.time()
            await ClockCycles(dut, 1)
            for ev in events:
                for w in ev.woken:
                    sim.check(w.get("gone"), "not-woken", f"a task whose event was set in cycle {w['at']} is still waiting in cycle {dut.cycle}")
                ev.woken = []
            for s in sleeping:
                sim.check(s[1] or s[0] > before + 1e-6, "overslept", f"a sleep until {s[0]} has not ended at {start}, a cycle later")
            sleeping[:] = [s for s in sleeping if not s[1]]
            before = start
            if c >= horizon:
                for ev in events:
                    ev.set()
                if all(t.done() for t in tasks) and not sleeping and all(r["end"] is not None for rs in pending for r in rs):
                    break
        else:
            sim.fail("not-finished", f"{sum(not t.done() for t in tasks)} tasks have not ended in cycle {dut.cycle}")
        for t in tasks:
            t.result()
        sim.check(len(results) == len(case["roots"]), "not-finished", "a gather has not ended")

    kind, val = sim.toffee_run(test, None, case["mode"])
    if kind == "exc":
        raise val
