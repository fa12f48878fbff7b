"""A random asynchronous test program over toffee's primitives, with its cause/effect bookkeeping.

The same workload is used by C02 (quiescence), C03 (life cycle) and C05 (isolation).
"""
from .common import *

NE, NQ = 3, 2
# names a user may give to tasks
NAMES = ["main", "main_task", "clock", "__clock", "clock_loop", "driver", "", "Task-1", "monitor", "__main__", "test", "env"]


def gen_op(rng, nprog, rich=True):
    k = rng.choice([
        "wait", "wait", "set", "set", "pulse", "clear", "get", "get", "put", "put", "putnw", "yield", "clock", "clock",
        "spawn", "join", "gather", "cancel", "sleep", "wfe", "wfq", "timeout", "lock", "name", "raw",
    ] + (["drive", "drive", "zdrive"] if rich else []))
    if k in ("wait", "set", "pulse", "clear"):
        return [k, rng.randrange(NE)]
    if k in ("get", "put", "putnw"):
        return [k, rng.randrange(NQ)]
    if k == "yield":
        return [k, rng.randint(1, 4) if rng.random() < 0.99 else rng.choice([50, 300, 1500, 1500])]
    if k == "clock":
        return [k, rng.randint(1, 2)]
    if k in ("spawn", "cancel"):
        return [k, rng.randrange(nprog)]
    if k == "gather":
        n = rng.randint(1, 3) if rng.random() < 0.7 else rng.randint(4, 6) if rng.random() < 0.8 else rng.randint(7, 40)
        return [k, [rng.randrange(nprog) for _ in range(n)]]
    if k == "raw":
        n = rng.randint(1, 3) if rng.random() < 0.9 else rng.randint(4, 12)
        return [k, rng.choice(["gather", "wait", "shield", "group"]), [[rng.choice(["sleep", "sleep", "get", "put", "wait"]), rng.randrange(2)] for _ in range(n)]]
    if k == "sleep":
        return [k, rng.choice([0.0, 0.0005, 0.02, 2.0])]
    if k in ("wfe", "wfq"):
        return [k, rng.randrange(min(NE, NQ)), rng.choice([0.0, 0.002, 0.05, 1.0])]
    if k == "timeout":
        return [k, rng.choice([0.001, 0.05])]
    if k == "name":
        return [k, rng.choice(NAMES)]
    if k == "lock":
        return [k, rng.randint(0, 3)]
    if k == "drive":
        return [k, rng.randrange(2)]
    if k == "zdrive":
        return [k, rng.choice([1, 1, 2, 3]) if rng.random() < 0.97 else rng.choice([20, 60])]
    return [k]


def gen_kicks(rng, horizon):
    """What hooks do: [cycle, op] executed inside a model hook in that cycle."""
    out = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        k = rng.choice(["pulse", "set", "putnw", "cancel", "spawn", "clear"])
        out.append([rng.randint(0, horizon), k, rng.randrange(3)])
    return out


def gen_world(rng):
    nprog = rng.randint(2, 6)
    horizon = rng.randint(3, 9)
    model = rng.random() < 0.7
    own = [rng.choice([0, 0, 1, 2, 3, 4]) for _ in range(horizon)] if rng.random() < 0.3 else []
    alone = rng.random() < 0.06  # the test is the only task there is
    if alone:
        own, model = [rng.randint(0, 4) for _ in range(horizon)], False
    w = {
        "progs": [[gen_op(rng, nprog) for _ in range(rng.randint(1, 6))] for _ in range(nprog)],
        "roots": [[rng.randrange(nprog), rng.randint(0, horizon - 1)] for _ in range(rng.randint(1, 5))],
        "horizon": horizon,
        "model": model,
        "hooks": {"mon": rng.random() < 0.6, "drv": rng.choice(["none", "model_first", "dut_first"]),
                  "agent": rng.choice(["none", "model_first", "dut_first"]), "port": rng.random() < 0.3,
                  "prio": rng.randint(0, 99)},
        "kicks": gen_kicks(rng, horizon),
        "delayer": rng.random() < 0.3,
        "component": rng.random() < 0.4,
        "own": own,
    }
    if alone:
        w.update(roots=[], kicks=[], component=False)
    return w


class World:
    def __init__(self, sim, case, quiet_check=True):
        self.sim, self.case = sim, case
        self.quiet_check = quiet_check
        self.recs = []
        self.finished = False
        self.cancel_cycle = {}
        self.kick_done = set()

    # ---- construction (inside the loop) ------------------------------------------------------------
    def build(self):
        sim, case = self.sim, self.case
        self.dut = dut = SimDut(sim, ["io_a", "io_b"])
        dut.on_step_func = lambda d: setattr(d.io_b, "_v", d.cycle)
        if self.quiet_check:
            dut.pre_step_func = self.on_pre_step
        self.events = [toffee.asynchronous.Event() for _ in range(NE)]
        self.last_set = [None] * NE
        self.waiting = {}     # a wait in progress -> [who, cycle in which its event was set, event]
        self.queues = [toffee.asynchronous.Queue() for _ in range(NQ)]
        self.lock = asyncio.Lock()
        start_clock(dut)
        world = self
        self.bundle = type("IO", (Bundle,), {"a": Signal(), "b": Signal()}).from_prefix("io_").bind(dut)
        self.env = self.model = None
        if case["model"]:
            h = case["hooks"]

            class Ag(Agent):
                @driver_method()
                async def drv(self, x):
                    await self.bundle.step()
                    return None

                @driver_method()
                async def zdrv(self, x):
                    return None

                @monitor_method()
                async def mon(self):
                    return self.bundle.b.value

            class MyEnv(Env):
                def __init__(self):
                    super().__init__()
                    self.ag = Ag(world.bundle)

            ns = {}
            if h["mon"]:
                @monitor_hook(monitor_path="ag.mon")
                def on_mon(self, v):
                    world.kick("mon")
                ns["on_mon"] = on_mon
            if h["drv"] != "none":
                @driver_hook(driver_path="ag.drv", priority=h["prio"], sche_order=h["drv"])
                def on_drv(self, x):
                    world.kick("drv")
                ns["on_drv"] = on_drv

                @driver_hook(driver_path="ag.zdrv", priority=99 - h["prio"], sche_order=h["drv"])
                def on_zdrv(self, x):
                    world.kick("drv")
                ns["on_zdrv"] = on_zdrv
            if h["agent"] != "none":
                @agent_hook(agent_name="ag", sche_order=h["agent"])
                def on_agent(self, name, args):
                    world.kick("agent")
                ns["on_agent"] = on_agent
            M = type("M", (Model,), ns)
            self.env = MyEnv()
            self.model = M()
            self.env.attach(self.model)
            self.env.ag.start_monitor("mon", 2)
        if case["delayer"]:
            self.delayer = Delayer(self.bundle.b, 1)
        if case["component"]:
            class Comp(Component):
                async def main(self):
                    while True:
                        await world.ev_wait("comp", 0)
                        await world.bundle.step()
            self.comp = Comp()
        return self

    # ---- invariants --------------------------------------------------------------------------------
    def on_pre_step(self, dut):
        left = self.sim.runnable_tasks()
        # the coroutine that ends the run is toffee's own business once the test is over
        left = [t for t in left if not (self.finished and t.get_name() == "main_coro")]
        if left:
            names = sorted(getattr(t.get_coro(), "__qualname__", "?") for t in left)
            self.sim.fail("stepped-over-runnable",
                          f"DUT stepped past cycle {dut.cycle} while runnable: {names}")
        if not self.finished:
            lost = [w[0] for w in self.waiting.values() if w[1] is not None]
            if lost:
                self.sim.fail("lost-wakeup", f"DUT stepped past cycle {dut.cycle} although the event that {lost} "
                                             f"wait for was set in it")

    def effect(self, what, expect):
        now = self.dut.cycle
        self.sim.log("effect", what, expect, now)
        self.sim.state(what, now % 4, len(self.sim.runnable_tasks()))
        self.sim.check(now == expect, "late-effect",
                       f"{what}: cause in cycle {expect}, effect seen in cycle {now}")

    # ---- primitives --------------------------------------------------------------------------------
    def ev_set(self, e, clear=False):
        self.events[e].set()
        self.last_set[e] = self.dut.cycle
        for w in self.waiting.values():
            if w[2] == e:
                w[1] = self.dut.cycle
        if clear:
            self.events[e].clear()

    async def ev_wait(self, who, e):
        pre = self.events[e].is_set()
        c = self.dut.cycle
        tok = object()
        self.waiting[tok] = [who, None, e]
        try:
            await self.events[e].wait()
        finally:
            del self.waiting[tok]
        if pre:
            self.effect("wait on a set event", c)
        else:
            self.effect("event", self.last_set[e])
            self.sim.probe("event_wakeup")

    def kick(self, where):
        c = self.dut.cycle
        for i, (cy, k, x) in enumerate(self.case["kicks"]):
            if cy == c and i not in self.kick_done:
                self.kick_done.add(i)
                self.sim.probe(f"kick_from_{where}")
                if k == "pulse":
                    self.ev_set(x % NE, clear=True)
                elif k == "set":
                    self.ev_set(x % NE)
                elif k == "clear":
                    self.events[x % NE].clear()
                elif k == "putnw":
                    self.queues[x % NQ].put_nowait(self.dut.cycle)
                elif k == "cancel":
                    self.cancel(x)
                elif k == "spawn":
                    self.spawn(x, 2)

    def spawn(self, pi, depth):
        if len(self.recs) >= 30 or depth > 3 or not self.case["progs"]:
            return None
        rec = {"id": len(self.recs), "done_cycle": None, "born": self.dut.cycle, "started": False}
        self.recs.append(rec)
        rec["task"] = create_task(self.prog(rec, self.case["progs"][pi % len(self.case["progs"])], depth))
        return rec

    def cancel(self, x):
        if not self.recs:
            return
        rec = self.recs[x % len(self.recs)]
        t = rec["task"]
        if not t.done() and t is not asyncio.current_task():
            t.cancel()
            rec.setdefault("cancelled_at", self.dut.cycle)
            self.sim.fault("cancel_task")

    async def drive(self, x):
        if self.env is None:
            return
        c = self.dut.cycle
        await self.env.ag.drv(x)
        self.effect("driver call of one cycle", c + 1)

    async def prog(self, rec, ops, depth):
        sim = self.sim
        if rec["started"]:
            return
        rec["started"] = True
        try:
            self.effect("spawn", rec["born"])
            for op in ops:
                await self.op(rec, op, depth)
        except asyncio.CancelledError:
            if not self.finished and "cancelled_at" in rec and not self.slow_cancel(rec):
                self.effect("cancel", rec["cancelled_at"])
            raise
        finally:
            rec["done_cycle"] = self.dut.cycle

    def slow_cancel(self, rec):
        """A cancellation that asyncio passes on by callbacks may take a cycle, also one that reaches it through joins."""
        seen = []
        while rec is not None and id(rec) not in seen:
            if rec.get("raw") or seen and rec.get("was_raw"):
                return True
            seen.append(id(rec))
            rec = rec.get("child")
        return False

    async def raw(self, rec, how, leaves):
        """asyncio's own ways to wait for several coroutines, each ending with a wait of toffee's."""
        ends = []

        async def leaf(kind, x):
            if kind == "sleep":
                await toffee.asynchronous.sleep([0.0, 0.02][x])
            elif kind == "get":
                await self.queues[x].get()
            elif kind == "put":
                await self.queues[x].put(self.dut.cycle)
            else:
                await self.ev_wait(rec["id"], x)
            ends.append(self.dut.cycle)
        cs = [leaf(*x) for x in leaves]
        if how == "gather":
            await asyncio.gather(*cs)
        elif how == "wait":
            await asyncio.wait([asyncio.ensure_future(c) for c in cs])
        elif how == "shield":
            for c in cs[1:]:
                c.close()
            await asyncio.shield(cs[0])
        else:
            async with asyncio.TaskGroup() as g:
                for c in cs:
                    g.create_task(c)
        self.effect(f"asyncio {how}", max(ends))
        self.sim.probe("asyncio_group")

    async def op(self, rec, op, depth):
        k, dut = op[0], self.dut
        c = dut.cycle
        if k == "wait":
            await self.ev_wait(rec["id"], op[1])
        elif k == "set":
            self.ev_set(op[1])
        elif k == "pulse":
            self.ev_set(op[1], clear=True)
        elif k == "clear":
            self.events[op[1]].clear()
        elif k == "get":
            item = await self.queues[op[1]].get()
            self.effect("queue item", max(item, c))
            self.sim.probe("queue_get")
        elif k == "put":
            await self.queues[op[1]].put(dut.cycle)
        elif k == "putnw":
            self.queues[op[1]].put_nowait(dut.cycle)
        elif k == "yield":
            await yields(op[1])
            self.effect("yield", c)
        elif k == "clock":
            await self.bundle.step(op[1])
            self.effect("clock", c + op[1])
        elif k == "spawn":
            r = self.spawn(op[1], depth + 1)
            if r is not None:
                rec["child"] = r
        elif k == "join":
            r = rec.get("child")
            if r is not None and r is not rec:
                try:
                    await r["task"]
                except asyncio.CancelledError:
                    # either the child or this task was cancelled
                    if asyncio.current_task().cancelling():
                        raise
                if r["done_cycle"] is not None:
                    self.effect("join", max(c, r["done_cycle"]))
                    self.sim.probe("join")
        elif k == "gather":
            rs = []
            if depth < 3 and len(self.recs) < 26:
                async def sub(pi):
                    r = {"id": -1, "born": c, "started": False, "done_cycle": None}
                    rs.append(r)
                    ops = [o for o in self.case["progs"][pi % len(self.case["progs"])] if o[0] in ("yield", "clock", "set", "put", "sleep")]
                    await self.prog(r, ops, depth + 1)
                    return len(rs)
                await toffee.asynchronous.gather(*[sub(p) for p in op[1]])
                if rs:
                    self.effect("gather", max(r["done_cycle"] for r in rs))
                    self.sim.probe("gather")
        elif k == "raw":
            rec["raw"] = rec["was_raw"] = True  # asyncio passes a cancellation on by callbacks, which may take a cycle
            await self.raw(rec, op[1], op[2])
            rec["raw"] = False
        elif k == "cancel":
            self.cancel(op[1])
        elif k == "sleep":
            await toffee.asynchronous.sleep(op[1])
        elif k in ("wfe", "wfq"):
            try:
                if k == "wfe":
                    await asyncio.wait_for(self.ev_wait(rec["id"], op[1]), op[2])
                else:
                    item = await asyncio.wait_for(self.queues[op[1]].get(), op[2])
                    self.effect("queue item", max(item, c))
            except asyncio.TimeoutError:
                self.sim.fault("timeout_fired")
        elif k == "timeout":
            try:
                async with asyncio.timeout(op[1]):
                    await self.bundle.step(3)
            except TimeoutError:
                self.sim.fault("timeout_fired")
        elif k == "lock":
            async with self.lock:
                await yields(op[1])
        elif k == "drive":
            await self.drive(op[1])
        elif k == "zdrive" and self.env is not None:
            # driver calls that take no cycle, one after another: they all belong to this cycle
            for x in range(op[1]):
                await self.env.ag.zdrv(x)
            self.effect("driver calls of no cycle", c)
            self.sim.probe("zero_latency_drive")
        elif k == "name":
            asyncio.current_task().set_name(op[1])

    # ---- the test body -----------------------------------------------------------------------------
    async def body(self):
        dut, case = self.dut, self.case
        for t in range(case["horizon"]):
            for pi, at in case["roots"]:
                if at == t:
                    self.spawn(pi, 0)
            c = dut.cycle
            await ClockCycles(dut, 1)
            self.sim.check(dut.cycle == c + 1, "late-effect", f"test waited 1 cycle from {c} and woke in {dut.cycle}")
            own = case.get("own", [])
            if t < len(own) and own[t]:
                await yields(own[t])
                self.effect("yield of the test", c + 1)
                self.sim.probe("test_yields")
        self.finished = True
        self.end_cycle = dut.cycle
        return dut.cycle


def validate(case):
    if not case["progs"]:
        raise InvalidCase()
