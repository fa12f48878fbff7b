"""C06: queues and ports deliver in order, exactly once, with bounded drop-newest."""
from collections import deque

from .common import *
from toffee.model import AgentPort, DriverPort, MonitorPort

ID = "C06"
QUICK, THOROUGH = 4000, 120000
RULE = ("a case is up to three queues (plain, driver/agent/monitor port with capacity 1-4 or unbounded) and optionally an enabled monitor queue, "
        "random producers and consumers (get, call, get with timeout, get cancelled by another task), against a sequential FIFO model checked at every "
        "operation; non-trivial when a consumer waited and an item was delivered to it, or a drop happened")
STATE_MEASURE = "(queue kind, capacity, items queued, consumers waiting)"


def gen(rng, index):
    big = rng.random() < 0.08
    nq = rng.randint(1, 3) if not big else rng.randint(1, 6)
    qs = [[rng.choice(["queue", "driver", "agent", "monitor"]), rng.choice([-1, 1, 1, 2, 3, 4] if not big else [-1, 1, 5, 8, 20, 64, 130])] for _ in range(nq)]
    for q in qs:
        if q[0] != "queue" and rng.random() < 0.15:
            q[1:] = [4, "default"]  # no capacity given
    tasks = []
    for _ in range(rng.randint(2, 7) if not big else rng.randint(4, 16)):
        ops = []
        role = rng.choice(["prod", "cons", "mixed"])
        for _ in range(rng.randint(1, 8) if not big else rng.randint(3, 30)):
            k = rng.choice({"prod": ["put"], "cons": ["get", "get", "getto", "call"], "mixed": ["put", "get", "getto", "call"]}[role]
                           + ["yield", "clock", "cancel"])
            if k == "put":
                ops.append([k, rng.randrange(nq), rng.randint(1, 3) if not big else rng.choice([1, 3, 10, 90])])
                if rng.random() < 0.3:
                    # a consumer that was just woken is cancelled
                    ops.append(["cancel", rng.randrange(8)])
            elif k in ("get", "call"):
                ops.append([k, rng.randrange(nq)])
            elif k == "getto":
                ops.append([k, rng.randrange(nq), rng.choice([0.0, 0.001, 0.01, 0.1])])
            elif k == "yield":
                ops.append([k, rng.randint(1, 3)])
            elif k == "clock":
                ops.append([k, rng.randint(1, 2)])
            else:
                ops.append([k, rng.randrange(8)])
        tasks.append(ops)
    for i, q in enumerate(qs):
        if q[2:] and rng.random() < 0.5:  # more than fits
            tasks.append([["clock", rng.randint(1, 2)]] * rng.randint(0, 1) + [["put", i, rng.randint(1, 3)] for _ in range(rng.randint(3, 6))])
    return {"queues": qs, "tasks": tasks, "horizon": rng.randint(3, 10) if not big else rng.randint(10, 60),
            "mon": rng.choice([0, 0, 1, 2, 4] if not big else [0, 4, 10, 40]), "mon_default": rng.random() < 0.7, "mon_env": rng.random() < 0.5, "mon_from": rng.randint(0, 3), "mon_none": rng.choice([1, 1, 2, 3]),
            "mon_cons": [[rng.randint(0, 6), rng.choice([-1, -1, 0.001, 0.05])] for _ in range(rng.randint(0, 5))],
            "mode": rng.choice(MODES)}


def nontrivial(sim, case):
    return any(k in sim.probes for k in ("waited_delivery", "drop", "mon_drop", "mon_delivery"))


def run(sim, case):
    if not case["queues"] or not case["tasks"]:
        raise InvalidCase()
    st = {"n": 0, "keep": [], "mon_model": None, "over": False, "port_drops": 0, "mon_drops": 0, "mon_waiting": 0}

    class IO(Bundle):
        a, b = Signals(2)

    class Ag(Agent):
        @monitor_method()
        async def mon(self):
            c = st["dut"].cycle
            if c % (case["mon_none"] or 1):
                return None
            mm = st["mon_model"]
            if mm is not None:
                if len(mm) >= case["mon"]:
                    st["mon_drops"] += 1
                    sim.probe("mon_drop")
                else:
                    mm.append(("m", c))
            return ("m", c)

    class MyEnv(Env):
        def __init__(self, bundle):
            super().__init__()
            self.ag = Ag(bundle)

    def errors():
        return [m for lv, m in sim.toffee_log if lv == "ERROR"]

    async def test():
        dut = st["dut"] = SimDut(sim, ["io_a", "io_b"])
        start_clock(dut)
        bundle = IO.from_prefix("io_").bind(dut)
        agent = MyEnv(bundle).ag if case["mon_env"] else Ag(bundle)
        qs = []
        for i, (kind, cap, *default) in enumerate(case["queues"]):
            size = {} if default and cap == 4 else {"maxsize": cap if cap else 1}
            if kind == "queue":
                q, cap = toffee.asynchronous.Queue(), -1
            elif kind == "driver":
                q = DriverPort(**size)
            elif kind == "agent":
                q = AgentPort(**size)
            else:
                q = MonitorPort(**size)
            qs.append({"q": q, "cap": cap if cap else 1, "m": deque(), "kind": kind, "waiting": 0})

        def settled(_):
            # nobody waits for an item that is there
            for h in qs:
                if not st["over"]:
                    sim.check(not (h["m"] and h["waiting"]), "not-delivered", f"cycle {dut.cycle} ends with {list(h['m'])} in {h['kind']} and {h['waiting']} consumers waiting")
            mm = st["mon_model"]
            if mm and not st["over"]:
                sim.check(not st["mon_waiting"], "not-delivered", f"cycle {dut.cycle} ends with {list(mm)} in the monitor queue and {st['mon_waiting']} consumers waiting")
        dut.pre_step_func = settled

        def inv(h):
            sim.check(h["q"].qsize() == len(h["m"]), "size-mismatch", f"{h['kind']} holds {h['q'].qsize()} items, model {list(h['m'])}")
            sim.state(h["kind"], h["cap"], len(h["m"]), h["waiting"])

        async def put(h, v):
            full = h["cap"] != -1 and len(h["m"]) >= h["cap"]
            before, c = len(errors()), dut.cycle
            if not full:
                h["m"].append(v)
            sim.log("put", v, full)
            await h["q"].put(v)
            sim.check(dut.cycle == c, "producer-blocked", f"put took from cycle {c} to {dut.cycle}")
            new = errors()[before:]
            if full:
                sim.probe("drop")
                st["port_drops"] += 1
                sim.check(len(new) == 1, "drop-not-logged", f"dropping {v} logged {new}")
            else:
                sim.check(not new, "spurious-error", f"storing {v} (capacity {h['cap']}) logged {new}")
            inv(h)

        def got(h, v, waited):
            sim.log("got", v)
            sim.check(h["m"], "phantom-item", f"received {v!r} but nothing was outstanding in {h['kind']}")
            want = h["m"].popleft()
            sim.check(v == want, "wrong-order", f"received {v!r}, the oldest outstanding item is {want!r}")
            if waited:
                sim.probe("waited_delivery")
            inv(h)

        async def waiting(h, get):
            h["waiting"] += 1
            try:
                return await get()
            finally:
                h["waiting"] -= 1

        async def prog(ops):
            for op in ops:
                k = op[0]
                if k == "put":
                    for _ in range(op[2]):
                        st["n"] += 1
                        await put(qs[op[1] % len(qs)], ("i", st["n"]))
                elif k in ("get", "call", "getto"):
                    h = qs[op[1] % len(qs)]
                    waited = not h["m"]
                    try:
                        if k == "call" and h["kind"] != "queue":
                            v = await waiting(h, h["q"])
                        elif k == "getto":
                            v = await asyncio.wait_for(waiting(h, h["q"].get), op[2])
                        else:
                            v = await waiting(h, h["q"].get)
                    except TimeoutError:
                        sim.fault("consumer_timeout")
                        inv(h)
                        continue
                    except asyncio.CancelledError:
                        if not st["over"]:
                            inv(h)
                        raise
                    got(h, v, waited)
                elif k == "yield":
                    await yields(op[1])
                elif k == "clock":
                    await ClockCycles(dut, op[1])
                elif k == "cancel":
                    if op[1] < len(st["keep"]):
                        t = st["keep"][op[1]]
                        if not t.done() and t is not asyncio.current_task():
                            t.cancel()
                            sim.fault("cancel_consumer")

        async def mon_get():
            st["mon_waiting"] += 1
            try:
                return await agent.mon()
            finally:
                st["mon_waiting"] -= 1

        async def mon_consumer(at, to):
            await ClockCycles(dut, at)
            while True:
                if st["mon_model"] is None:
                    await ClockCycles(dut, 1)
                    continue
                try:
                    if to < 0:
                        v = await mon_get()
                    else:
                        v = await asyncio.wait_for(mon_get(), to)
                except TimeoutError:
                    sim.fault("consumer_timeout")
                    await ClockCycles(dut, 2)
                    continue
                mm = st["mon_model"]
                sim.check(mm, "phantom-item", f"monitor queue gave {v!r}, model is empty")
                want = mm.popleft()
                sim.check(v == want, "wrong-order", f"monitor queue gave {v!r}, oldest is {want!r}")
                sim.probe("mon_delivery")
                await ClockCycles(dut, 2)

        for ops in case["tasks"]:
            st["keep"].append(create_task(prog(ops)))
        for at, to in case["mon_cons"]:
            st["keep"].append(create_task(mon_consumer(at, to)))
        for t in range(case["horizon"]):
            if case["mon"] and t == case["mon_from"]:
                agent.start_monitor("mon", *([] if case["mon"] == 4 and case.get("mon_default") else [case["mon"]]))
                st["mon_model"], st["mon_drops"] = deque(), 0
            await ClockCycles(dut, 1)
        # let the cycle settle, then stop all activity and drain
        await ClockCycles(dut, 1)
        await yields(8)
        for t in st["keep"]:
            if t.done() and not t.cancelled():
                t.result()
        st["over"] = True
        for t in st["keep"]:
            if not t.done():
                t.cancel()
        await yields(8)
        for h in qs:
            inv(h)
            rest = [h["q"].get_nowait() for _ in range(h["q"].qsize())]
            sim.check(rest == list(h["m"]), "lost-item", f"left in {h['kind']}: {rest}, model {list(h['m'])}")
        if st["mon_model"] is not None:
            sim.check(agent.monitor_size("mon") == len(st["mon_model"]), "size-mismatch",
                      f"monitor queue holds {agent.monitor_size('mon')}, model {list(st['mon_model'])}")
        sim.check(len(errors()) == st["mon_drops"] + st["port_drops"], "drop-not-logged",
                  f"{st['mon_drops']} drops of the monitor queue and {st['port_drops']} of ports; logged {errors()}")

    kind, val = sim.toffee_run(test, None, case["mode"])
    if kind == "exc":
        raise val
