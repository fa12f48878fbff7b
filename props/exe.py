"""The executor workload of C14 (groups and results) and C15 (exit conditions)."""
from .common import *

KEYS = ["g0", "g1", 1, 0, "", "ag.drv", "coro_a", "three", ("t", 1), b"g0", 2.5, ()] + [f"n{i}" for i in range(20)]
# what the calls return: nothing special, or a value that looks like none
VALUES = {"id": lambda bi, i: (bi, i), "none": lambda bi, i: None, "list": lambda bi, i: [bi, i], "empty": lambda bi, i: [], "false": lambda bi, i: False,
          "zero": lambda bi, i: 0, "str": lambda bi, i: "", "dict": lambda bi, i: {i: bi}, "exc": lambda bi, i: ValueError(i)}


class Boom(Exception):
    pass


def gen_call(rng, fail_p, depth, blocks, explicit=0.5, keys=8, values="id"):
    k = {"g": rng.randrange(keys) if rng.random() < explicit else -1, "kind": rng.choice(["ag.drv", "ag.drv", "ag.aux", "bg.drv", "coro_a", "coro_b", "agentarg"]),
         "lat": rng.choice([0, 0, 1, 1, 2, 3, 5]), "y": rng.choice([0, 0, 1, 3]), "fail": None, "nest": -1, "form": rng.choice([0, 0, 1, 2]), "res": rng.choice(["id", "id"] + list(VALUES)) if values == "mixed" else values}
    if rng.random() < fail_p:
        k["fail"] = rng.choice(["exc", "exc", "cancel"])
    if depth and k["kind"].startswith("coro") and k["fail"] is None and rng.random() < 0.15:
        blocks.append(gen_block(rng, 0, depth - 1, blocks))
        blocks[-1]["top"] = False
        k["nest"] = len(blocks) - 1
    return k


def gen_block(rng, fail_p, depth, blocks):
    explicit = rng.choice([0.0, 0.5, 1.0])
    exit = rng.choice(["all", "any", "none"])
    values = rng.choice(["id", "mixed", "mixed", "none", "empty"])
    keys, sizes = rng.choice([(4, [1, 2, 3, 4, 5, 7]), (12, [1, 2, 3, 4, 5, 7]), (12, [1, 2, 3, 4, 5, 7]), (len(KEYS), [1, 2, 3, 4, 5, 7, 20, 40])])
    return {"top": True, "at": rng.randint(0, 4), "pre": rng.choice([0, 0, 1, 3]), "exit": exit, "gap": rng.choice([0, 0, 0, 1, 2]),
            "calls": [gen_call(rng, fail_p, depth, blocks, explicit, keys, values) for _ in range(rng.choice(sizes))],
            "wait": [rng.choice([0, 0, 1, 2, 4, 9]) for _ in range(rng.choice([0, 1, 1, 2]))], "wait_pre": rng.choice([0, 0, 1, 3])}


def gen_exec(rng, fail_p=0.0):
    blocks = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        bl = gen_block(rng, fail_p, 2, blocks)
        blocks.append(bl)
    return {"blocks": blocks, "hooks": {"drv": rng.choice(["none", "model_first", "dut_first"]), "aux": rng.choice(["none", "model_first", "dut_first"]),
                                        "agent": rng.random() < 0.3}, "attach": rng.random() < 0.7,
            "mode": rng.choice(MODES)}


def key_of(c):
    if c["g"] >= 0:
        return KEYS[c["g"]]
    return c["kind"]


def groups_of(bl):
    """The specified grouping: key -> indices of calls in scheduling order."""
    out = {}
    for i, c in enumerate(bl["calls"]):
        out.setdefault(key_of(c), []).append(i)
    return out


def named_coros(ex):
    async def first(*x):
        return await ex.work(*x[0])

    async def coro_b(x, *, y=None):
        return await ex.work(*x)
    first.__name__ = "coro_a"
    return first, coro_b


class Exec:
    def __init__(self, sim, case):
        self.sim, self.case = sim, case
        n = len(case["blocks"])
        seen = set()
        for bl in case["blocks"]:
            if not bl["calls"] or any(not 0 <= c["g"] + 1 <= len(KEYS) for c in bl["calls"]):
                raise InvalidCase()
            for c in bl["calls"]:
                if c["nest"] >= 0:
                    if c["nest"] >= n or case["blocks"][c["nest"]]["top"] or c["nest"] in seen or not c["kind"].startswith("coro"):
                        raise InvalidCase()
                    seen.add(c["nest"])
        if not any(b["top"] for b in case["blocks"]):
            raise InvalidCase()
        self.seq = 0
        self.rec = {i: {"calls": {}, "waits": []} for i in range(n)}
        self.keep = []

    def now(self, **kw):
        self.seq += 1
        return dict(kw, c=self.dut.cycle, s=self.seq)

    async def work(self, bi, i):
        c = self.case["blocks"][bi]["calls"][i]
        r = self.rec[bi]["calls"].setdefault(i, [])
        r.append(["start", self.now()])
        self.sim.log("start", bi, i, self.dut.cycle)
        await yields(c["y"])
        if c["nest"] >= 0:
            await self.block(c["nest"])
        if c["lat"]:
            await self.bundle.step(c["lat"])
        await yields(c["y"])
        r.append(["end", self.now()])
        self.sim.log("end", bi, i, self.dut.cycle)
        if c["fail"] == "exc":
            self.sim.fault("group_exception")
            raise Boom(f"{bi}.{i}")
        if c["fail"] == "cancel":
            self.sim.fault("group_cancelled")
            raise asyncio.CancelledError()
        return VALUES[c["res"]](bi, i)

    def make(self, bi, i):
        ex = self
        kind = self.case["blocks"][bi]["calls"][i]["kind"]
        if "." in kind:
            a, d = kind.split(".")
            return getattr(getattr(self.env, a), d)((bi, i))

        # one name, defined in three places
        class Holder:
            async def coro_a(self, x):
                return await ex.work(*x)

            async def coro_b(self, x):
                return await ex.work(*x)

        async def coro_a(x):
            return await ex.work(*x)

        async def coro_b(x):
            return await ex.work(*x)
        form = self.case["blocks"][bi]["calls"][i].get("form", 0)
        if form == 1:
            coro_a, coro_b = Holder().coro_a, Holder().coro_b
        elif form == 2:
            coro_a, coro_b = named_coros(ex)

        async def agentarg(agent):
            # an ordinary sequence whose argument happens to be called agent
            return await ex.work(*agent)
        return {"coro_a": coro_a, "coro_b": coro_b, "agentarg": agentarg}[kind]((bi, i))

    async def block(self, bi):
        bl, r = self.case["blocks"][bi], self.rec[bi]
        try:
            try:
                async with Executor(exit=bl["exit"]) as exe:
                    for i, c in enumerate(bl["calls"]):
                        if c["g"] >= 0:
                            exe(self.make(bi, i), sche_group=KEYS[c["g"]])
                        else:
                            exe(self.make(bi, i))
                        if i == 0 and bl["gap"]:
                            await ClockCycles(self.dut, bl["gap"])
                            self.sim.check(not r["calls"], "started-early", f"block {bi}: calls ran before the block was left: {r['calls']}")
                    r["begin"] = self.now()
            finally:
                r["left"] = self.now()
        except (Boom, asyncio.CancelledError) as e:
            if not r["calls"] or asyncio.current_task().cancelling():
                raise
            r["left_exc"] = e
        r["results0"] = dict(exe.get_results())
        for k, w in enumerate(bl["wait"]):
            await ClockCycles(self.dut, w)
            await yields(bl["wait_pre"])
            wr = {"from": self.now(), "exc": None}
            r["waits"].append(wr)
            try:
                await exe.wait_all()
            except (Boom, asyncio.CancelledError) as e:
                if asyncio.current_task().cancelling():
                    raise
                wr["exc"] = e
            wr["to"] = self.now()
            wr["results"] = dict(exe.get_results())
        r["exe"] = exe

    def run(self):
        ex, case = self, self.case

        class Ag(Agent):
            @driver_method()
            async def drv(self, x):
                return await ex.work(*x)

            @driver_method()
            async def aux(self, x):
                return await ex.work(*x)

        class MyEnv(Env):
            def __init__(self, bundle):
                super().__init__()
                self.ag = Ag(bundle)
                self.bg = Ag(bundle)
        ns = {}
        for d in ("drv", "aux"):
            if case["hooks"][d] != "none":
                def hook(self, x):
                    return None
                ns["on_" + d] = driver_hook(f"ag.{d}", sche_order=case["hooks"][d])(hook)
        if case["hooks"]["agent"]:
            def hook(self, path, args):
                return None
            ns["on_agent"] = agent_hook("bg")(hook)
        M = type("M", (Model,), ns)

        async def test():
            dut = ex.dut = SimDut(ex.sim, ["io_a", "io_b"])
            start_clock(dut)
            ex.bundle = type("IO", (Bundle,), {"a": Signal(), "b": Signal()}).from_prefix("io_").bind(dut)
            ex.env = MyEnv(ex.bundle)
            if case.get("attach", True):
                ex.env.attach(M())

            async def top(bi):
                await ClockCycles(dut, case["blocks"][bi]["at"])
                await yields(case["blocks"][bi]["pre"])
                await ex.block(bi)
            tasks = [create_task(top(bi)) for bi, bl in enumerate(case["blocks"]) if bl["top"]]
            for t in tasks:
                await t
            # groups nobody waited for keep running: give them time to end
            longest = sum(c["lat"] for bl in case["blocks"] for c in bl["calls"]) + 1
            if any(c["nest"] >= 0 for bl in case["blocks"] for c in bl["calls"]):
                longest += sum(sum(bl["wait"]) + bl["gap"] for bl in case["blocks"]) * 2
            await ClockCycles(dut, longest)
        kind, val = ex.sim.toffee_run(test, None, case["mode"])
        if kind == "exc":
            raise val

    # ---- oracle ------------------------------------------------------------------------------------
    def group_end(self, bi, idx):
        """(event of the group's end, index of the failing call or None)"""
        bl, calls = self.case["blocks"][bi], self.rec[bi]["calls"]
        for i in idx:
            if bl["calls"][i]["fail"]:
                return self.ended(bi, i), i
        return self.ended(bi, idx[-1]), None

    def ended(self, bi, i):
        ev = dict(map(tuple, self.rec[bi]["calls"].get(i, [])))
        self.sim.check("end" in ev, "call-not-run", f"block {bi}: call {i} ({self.case['blocks'][bi]['calls'][i]}) did not complete: {self.rec[bi]['calls'].get(i)}")
        return ev["end"]

    def check_groups(self, bi):
        bl, r, sim = self.case["blocks"][bi], self.rec[bi], self.sim
        if "begin" not in r:
            return
        for key, idx in groups_of(bl).items():
            prev = None
            for i in idx:
                c = bl["calls"][i]
                evs = r["calls"].get(i, [])
                sim.check([e[0] for e in evs] == ["start", "end"], "call-count", f"block {bi} call {i} in group {key!r}: events {evs}")
                start, end = evs[0][1], evs[1][1]
                if prev is None:
                    sim.check(start["c"] == r["begin"]["c"], "late-start", f"block {bi}: group {key!r} started in cycle {start['c']}, the block was left "
                              f"for execution in cycle {r['begin']['c']}")
                else:
                    sim.check(start["s"] > prev["s"], "group-overlap", f"block {bi}: call {i} of group {key!r} started before its predecessor ended")
                    sim.check(start["c"] == prev["c"], "group-gap", f"block {bi}: call {i} of group {key!r} started in cycle {start['c']}, its predecessor "
                              f"ended in {prev['c']}")
                if c["nest"] < 0:
                    sim.check(end["c"] == start["c"] + c["lat"], "call-latency", f"block {bi}: call {i} took {end['c'] - start['c']} cycles, not {c['lat']}")
                prev = end
                sim.state(len(idx), idx.index(i), c["kind"], c["lat"], len(groups_of(bl)))
                if c["fail"]:
                    # calls after a failure of their group never run
                    for j in idx[idx.index(i) + 1:]:
                        sim.check(j not in r["calls"], "ran-after-failure", f"block {bi}: call {j} of group {key!r} ran after call {i} had failed")
                    break

    def want_results(self, bi):
        def val(i):
            return VALUES[self.case["blocks"][bi]["calls"][i]["res"]](bi, i)
        return {k: val(idx[0]) if len(idx) == 1 else [val(i) for i in idx] for k, idx in groups_of(self.case["blocks"][bi]).items()}

    def same_results(self, got, bi):
        want = self.want_results(bi)
        return got.keys() == want.keys() and all(repr(got[k]) == repr(want[k]) for k in want)
