"""The driver-call workload of C10, C11 and C12: concurrent, overlapping, nested and executor-scheduled calls."""
from .bench import *


def gen_program(rng, monitors=True, lat=(0, 0, 1, 1, 2, 3), few_drivers=False, max_calls=10):
    h = rng.randint(2, 8) if rng.random() < 0.99 else rng.randint(30, 80)
    agents = gen_agents(rng, monitors=monitors)
    if few_drivers:
        agents = agents[:1]
        agents[0]["drivers"] = agents[0]["drivers"][:rng.randint(1, 2)]
    n = rng.randint(1, max_calls)
    burst = rng.random() < 0.02  # now and then a long chain of calls that take no cycle
    if burst:
        n, lat = rng.choice([15, 25, 40]), (0,)
    calls = [gen_call(rng, agents, i, h, lat) for i in range(n)]
    free = list(range(n))
    # nested: a driver body that makes another driver call
    for c in calls:
        c["nest"] = -1
    if n > 2 and rng.random() < 0.3:
        sub = free.pop()
        calls[rng.choice(free)]["nest"] = sub
    blocks, chains = [], []
    while free:
        k = rng.choice(["single", "single", "block", "chain"])
        take = [free.pop(0) for _ in range(min(len(free), 1 if k == "single" else rng.randint(1, 40 if burst else 5)))]
        if k == "block":
            groups = []
            for cid in take:
                if groups and rng.random() < 0.4:
                    rng.choice(groups).append(gen_sched_call(rng, cid))
                else:
                    groups.append([gen_sched_call(rng, cid)])
            blocks.append({"at": calls[take[0]]["at"], "pre": rng.choice([0, 0, 1, 4]), "exit": rng.choice(["all", "all", "any", "none"]), "groups": groups})
        else:
            chains.append(take)
    return {"horizon": h, "agents": agents, "calls": calls, "blocks": blocks, "chains": chains, "end_yield": rng.randint(0, 3), "mode": rng.choice(MODES)}


def gen_attach(rng, case):
    """Now and then a model comes later than the first calls."""
    if rng.random() < 0.3:
        for m in case["models"]:
            if rng.random() < 0.5:
                m.update(at=rng.randint(0, case["horizon"]), ay=rng.choice([0, 0, 1, 4]))


def gen_sched_call(rng, cid):
    return {"cid": cid, "prio": rng.choice([None, None, 0, 5, 50, 99, rng.randint(0, 99)]), "order": rng.choice([None, None, None, "model_first", "dut_first", "parallel"])}


class Calls(Bench):
    async def body_hook(self, agent, cid, plan):
        if plan.get("nest", -1) >= 0:
            await self.call(plan["nest"], agent.env_idx)

    def run_program(self):
        sim, case = self.sim, self.case
        self.upcoming = set()  # calls that are issued in this cycle, with nothing to wait for
        used = [c for ch in case["chains"] for c in ch] + [s["cid"] for bl in case["blocks"] for g in bl["groups"] for s in g] + \
               [c["nest"] for c in case["calls"] if c["nest"] >= 0]
        if len(used) != len(set(used)) or any(not 0 <= c < len(case["calls"]) for c in used):
            raise InvalidCase()
        if any(len(g) == 0 for bl in case["blocks"] for g in bl["groups"]) or any(not bl["groups"] for bl in case["blocks"]):
            raise InvalidCase()
        for c in case["calls"]:  # a nesting chain must end
            seen = set()
            while c["nest"] >= 0:
                if c["nest"] in seen:
                    raise InvalidCase()
                seen.add(c["nest"])
                c = case["calls"][c["nest"]]

        def setup():
            self.make_dut()
            env = self.make_env()
            for mi, m in enumerate(case["models"]):
                model = self.make_model(mi)
                if m.get("at", -1) < 0:
                    self.attach(model, mi)
            for h in self.ports:
                if h["t"]["consume"]:
                    self.consume(h)
            return env

        async def chain(cids):
            c0 = case["calls"][cids[0]]
            await ClockCycles(self.dut, c0["at"])
            self.upcoming.add(cids[0])
            await yields(c0["pre"])
            self.upcoming.discard(cids[0])
            for cid in cids:
                await self.call(cid)

        async def block(bi, bl):
            await ClockCycles(self.dut, bl["at"])
            await yields(bl["pre"])

            async def marker(s):
                self.issue(s["cid"], prio=s["prio"], order=s["order"])
            async with Executor(exit=bl["exit"]) as exe:
                for gi, g in enumerate(bl["groups"]):
                    for s in g:
                        exe(marker(s), sche_group=gi)
                        exe(self.coro(s["cid"]), priority=s["prio"], sche_order=s["order"], sche_group=gi)
            if bl["exit"] != "all":
                await exe.wait_all()
            res = exe.get_results()
            for gi, g in enumerate(bl["groups"]):
                for k, s in enumerate(g):
                    self.ev("ret", cid=s["cid"], v=res[gi][2 * k + 1])

        async def later(mi, m):
            await ClockCycles(self.dut, m["at"])
            await yields(m["ay"])
            if not self.over:
                self.attach(self.models[mi], mi)

        async def body(env):
            for mi, m in enumerate(case["models"]):
                if m.get("at", -1) >= 0:
                    self.keep.append(create_task(later(mi, m)))
            for ch in case["chains"]:
                if ch:
                    self.keep.append(create_task(chain(ch)))
            for bi, bl in enumerate(case["blocks"]):
                self.keep.append(create_task(block(bi, bl)))
            await ClockCycles(self.dut, case["horizon"])
            await yields(case["end_yield"])
            for t in self.keep:
                if t.done():
                    t.result()
            if not case.get("keep", True):
                self.keep.clear()
            return "done"

        kind, val = sim.toffee_run(body, setup, case["mode"])
        self.over = True
        self.drain()
        return kind, val

    # ---- what must have happened -------------------------------------------------------------------
    def call_history(self):
        """Per call id: issue, body start/end events."""
        out = {}
        for e in self.hist:
            if e["k"] == "issue":
                out[e["cid"]] = {"issue": e, "start": None, "end": None, "ret": None, "path": e["path"]}
        for e in self.hist:
            if e["k"] in ("body_start", "body_end", "ret") and e.get("cid") in out:
                out[e["cid"]][{"body_start": "start", "body_end": "end", "ret": "ret"}[e["k"]]] = e
        return out

    def named(self, cid):
        c = self.calls[cid]
        return self.agents[c["a"]]["drivers"][c["d"]]["sig"] not in UNNAMED

    def order_of(self, issue, t):
        o = issue.get("order")
        if o == "parallel":
            o = "model_first"
        return o or t["order"]

    def prio_of(self, issue, t):
        return issue["prio"] if issue.get("prio") is not None else t["prio"]

    def targets_of(self, cid):
        """The matching targets of the models that were attached when the call was made."""
        c = self.calls[cid]
        att = self.of("issue", cid=cid)[0]["att"]
        for mi, m in enumerate(self.models_spec):
            if (mi, 0) not in att:
                continue
            for ti, t in enumerate(m["targets"]):
                if self.matches(t, c["a"], "drivers", c["d"]):
                    yield mi, ti, t
