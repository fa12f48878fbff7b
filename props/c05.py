"""C05: runs in one process are independent."""
import gc
import os
import pickle

from sim.core import reborn

from .common import *

ID = "C05"
QUICK, THOROUGH = 2000, 50000
ENDS = ["ok", "ok", "test", "bg", "driver_hook", "agent_hook", "monitor_hook", "dut_first_hook", "driver_body", "monitor_body", "mismatch", "dut_step",
        "attach_fail", "pending"]
RULE = ("a case is 1-4 predecessor runs (each with its own traffic and one of the endings " + ", ".join(sorted(set(ENDS))) + "), then a probe run, "
        "all in one process; runs may use agents with other driver parameters under the same names; the probe's complete trace (hook order, arguments, cycles, port contents, delayed values, executor results, "
        "outcome) must equal the trace of the same probe in a forked process without predecessors; non-trivial when a predecessor failed")
STATE_MEASURE = "(endings of the predecessors, ending of the probe)"


class Boom(Exception):
    pass


class Outcome(BaseException):
    """Like the failures of pytest.fail()."""


class Interrupt(KeyboardInterrupt):
    """Like the user's Ctrl-C."""


KINDS = {"Boom": Boom, "Outcome": Outcome, "SystemExit": SystemExit, "Interrupt": Interrupt}


def gen_run(rng, probe=False):
    h = rng.randint(2, 5)
    return {
        "end": rng.choice(ENDS if not probe else ["ok", "ok", "ok", "driver_hook", "mismatch", "attach_fail"]), "at": rng.randint(0, h),
        "horizon": h, "calls": [[rng.randint(0, h), rng.choice(["drv", "aux"]), rng.randint(1, 3), rng.choice([-1, -1, 0, 50])] for _ in range(rng.randint(1, 6))],
        "port": rng.random() < 0.4, "delayer": rng.random() < 0.5, "queue": rng.random() < 0.5, "env2": rng.random() < 0.15,
        "sig": rng.random() < 0.3, "lack": not probe and rng.random() < 0.15, "exe": rng.choice(["none", "all", "any", "direct"]), "style": rng.choice(["env", "func"]), "mode": rng.choice(MODES), "clock": rng.random() < 0.9,
        "exc": rng.choice(["Boom"] * 5 + ["Outcome", "SystemExit", "Interrupt"]),
    }


def gen(rng, index):
    return {"preds": [gen_run(rng) for _ in range(rng.randint(1, 4))], "probe": gen_run(rng, True), "reuse": rng.choice(["", "loop", "all"]), "hooks": {
        "p1": rng.randint(0, 99), "p2": rng.randint(0, 99), "o2": rng.choice(["model_first", "dut_first"])}}


def nontrivial(sim, case):
    return any(p["end"] not in ("ok",) for p in case["preds"])


class Bench:
    """The test-bench classes, defined once and reused by every run of the case."""

    def __init__(self, sim, case):
        self.sim, self.case = sim, case
        self.cur = None
        self.duts = []
        bench = self
        hk = case["hooks"]

        def ev(*a):
            st = bench.cur
            if st is not None and not st["over"]:
                st["trace"].append((st["dut"].cycle if st["dut"] else -1,) + a)

        self.ev = ev

        def boom(site):
            st = bench.cur
            if st["spec"]["end"] == site and st["dut"].cycle >= st["spec"]["at"]:
                bench.sim.fault(site)
                raise KINDS[st["spec"].get("exc", "Boom")](site)
        self.boom = boom

        class IO(Bundle):
            a, b = Signals(2)

            def __new__(cls, *a, **k):
                return reborn(cls, sim.reuse_memory)
        self.IO = IO

        class Ag(Agent):
            @driver_method()
            async def drv(self, x, n=1):
                ev("drv", x, n)
                boom("driver_body")
                for _ in range(n):
                    await self.bundle.step()
                return x

            @driver_method()
            async def aux(self, x, n=1):
                ev("aux", x, n)
                await self.bundle.step(n)
                return x

            @monitor_method()
            async def mon(self):
                boom("monitor_body")
                return self.bundle.b.value

        class AgY(Ag):
            """The same drivers with other parameters."""

            @driver_method()
            async def drv(self, x, y=5, *, n=1):
                ev("drv", x, y, n)
                boom("driver_body")
                for _ in range(n):
                    await self.bundle.step()
                return x

            @driver_method()
            async def aux(self, z, /, n=2, **more):
                ev("aux", z, n, more)
                await self.bundle.step(n)
                return z

        class Ag2(Agent):
            @driver_method()
            async def other(self, x):
                await self.bundle.step()

        class MyEnv(Env):
            def __init__(self, bundle):
                super().__init__()
                self.ag = (AgY if bench.cur["spec"].get("sig") else Ag)(bundle)

        class Env2(Env):
            def __init__(self, bundle):
                super().__init__()
                self.ag = Ag2(bundle)

        class M(Model):
            @driver_hook("ag.drv", priority=hk["p1"])
            def on_drv(self, x, n=1):
                ev("hook drv", x, n)
                boom("driver_hook")
                return x if bench.cur["spec"]["end"] != "mismatch" else x + 1

            @driver_hook("ag.aux", priority=hk["p2"], sche_order=hk["o2"])
            def on_aux(self, x, n=1):
                ev("hook aux", x, n)
                boom("dut_first_hook")

            @monitor_hook("ag.mon")
            def on_mon(self, v):
                ev("hook mon", v)
                boom("monitor_hook")

        class MA(Model):
            @agent_hook("ag")
            def on_agent(self, name, args):
                ev("hook agent", name, dict(args) if isinstance(args, dict) else args)
                boom("agent_hook")

        class MP(Model):
            def __init__(self):
                super().__init__()
                self.ag__drv = DriverPort()
                self.ag__mon = MonitorPort()
                self.ag = AgentPort()

        class Bad(Model):
            @driver_hook("nobody.drv")
            def on_x(self, x):
                pass
        self.MyEnv, self.Env2, self.M, self.MA, self.MP, self.Bad = MyEnv, Env2, M, MA, MP, Bad

    def run(self, spec):
        sim, ev = self.sim, self.ev
        st = self.cur = {"spec": spec, "trace": [], "over": False, "dut": None, "keep": []}

        def setup():
            dut = st["dut"] = reborn(SimDut, sim.reuse_memory)
            dut.__init__(sim, ["io_a"] if spec.get("lack") else ["io_a", "io_b"])

            def on_step(d):
                if not spec.get("lack"):
                    d.io_b._v = 100 + d.cycle
                if spec["end"] == "dut_step" and d.cycle >= spec["at"]:
                    sim.fault("dut_step")
                    raise OSError("simulated DUT failure")
            dut.on_step_func = on_step
            if spec["clock"]:
                start_clock(dut)
            b = self.IO.from_prefix("io_").bind(dut)
            env = (self.Env2 if spec["env2"] else self.MyEnv)(b)
            d = Delayer(b.b, 1) if spec["delayer"] else None
            ms = [self.M(), self.MA()] + ([self.MP()] if spec["port"] else [])
            for m in ms:
                env.attach(m)
            if spec["end"] == "attach_fail":
                env.attach(self.Bad())
            if spec["queue"] and not spec["env2"]:
                env.ag.start_monitor("mon", 3)
            return env, d, ms

        async def body(env, d, ms):
            dut = st["dut"]

            async def bg():
                while True:
                    if spec["end"] == "bg" and dut.cycle >= spec["at"]:
                        sim.fault("bg")
                        raise KINDS[spec.get("exc", "Boom")]("bg")
                    await ClockCycles(dut, 1)
            if spec["clock"]:
                create_task(bg())

            async def call(name, n):
                r = await getattr(env.ag, name)(dut.cycle, n=n)
                ev("returned", name, r)
            if not spec["clock"]:
                await toffee.asynchronous.sleep(0.01)
                return "noclock"
            for t in range(spec["horizon"] + 1):
                cs = [c for c in spec["calls"] if c[0] == t]
                if spec["exe"] == "direct":
                    for _, name, n, p in cs:
                        st["keep"].append(create_task(call(name, n)))
                        st["keep"].clear()
                elif cs and t < spec["horizon"]:
                    async with Executor(exit=spec["exe"]) as exe:
                        for _, name, n, p in cs:
                            exe(getattr(env.ag, name)(dut.cycle, n), priority=p if p >= 0 else None)
                    ev("exe", sorted(exe.get_results().items()))
                if d is not None:
                    ev("delayed", d.value)
                if spec["end"] == "test" and t >= spec["at"]:
                    sim.fault("test")
                    raise KINDS[spec.get("exc", "Boom")]("test")
                if t < spec["horizon"]:
                    await ClockCycles(dut, 1)
            if spec["end"] == "pending":
                # leave hook calls queued for the end of this cycle
                for i in range(3):
                    create_task(call("drv", 1))
                raise KINDS[spec.get("exc", "Boom")]("pending")
            for m in ms:
                if isinstance(m, self.MP):
                    for port in (m.ag__drv, m.ag__mon, m.ag):
                        ev("port", [port.get_nowait() for _ in range(port.qsize())])
            if spec["queue"] and not spec["env2"]:
                ev("mon size", env.ag.monitor_size("mon"))
            return ("result", dut.cycle)

        if spec["style"] == "env":
            kind, val = sim.toffee_run(body, setup, spec["mode"])
        else:
            async def test():
                return await body(*setup())
            kind, val = sim.toffee_run(test, None, spec["mode"])
        st["over"] = True
        if st["dut"] is not None:
            st["dut"].over = []
            if self.case.get("reuse") != "all":
                self.duts.append(st["dut"])
        st["trace"].append(("outcome", kind, val if kind == "ok" else (type(val).__name__, str(val))))
        return st["trace"]


def run(sim, case):
    import random

    def probe(bench):
        sim.rng = random.Random("probe")
        sim._hash_rng = random.Random("probe-hash")
        sim.toffee_log.clear()
        tr = bench.run(case["probe"])
        tr.append(("errors", [m for m in sim.toffee_log if m[0] in ("ERROR", "CRITICAL")]))
        return tr

    bench = Bench(sim, case)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = probe(bench)
            except BaseException as e:
                out = [("simulator", repr(e))]
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    fresh = pickle.loads(data)
    sim.reuse_memory = bool(case.get("reuse"))
    for p in case["preds"]:
        tr = bench.run(p)
        if sim.reuse_memory:
            bench.cur.update(dut=None, keep=[])
            gc.collect()
        sim.log("pred", p["end"], tr[-1][0])
        sim.probe("pred_" + tr[-1][1])
    got = probe(bench)
    sim.log("trace", got)
    sim.state(tuple(p["end"] for p in case["preds"]), got[-2][1], case["probe"]["end"])
    late = [(i, d.over) for i, d in enumerate(bench.duts) if d.over]
    sim.check(not late, "finished-run-goes-on", f"after runs ending {[p['end'] for p in case['preds']]}: the DUT of a finished run was used by a later one: {late}")
    if got != fresh:
        for i, (a, b) in enumerate(zip(got + [None] * len(fresh), fresh + [None] * len(got))):
            if a != b:
                sim.fail("run-depends-on-history", f"after runs ending {[p['end'] for p in case['preds']]} the probe's event {i} is {a}, "
                         f"in a fresh process {b}")
