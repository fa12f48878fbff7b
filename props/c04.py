"""C04: no failure is silently lost."""
import builtins

from .common import *

ID = "C04"
QUICK, THOROUGH = 4000, 100000
SITES = ["test", "bg", "model_main", "component", "driver_hook", "driver_hook_dut_first", "agent_hook", "agent_hook_mon",
         "monitor_hook", "driver_body", "driver_body_bg", "monitor_body", "mismatch", "mismatch_dut_first", "dut_step",
         "hook_via_executor", "pin_read", "bg_nested", "gathered", "task_joined"]
RULE = ("a case is a test bench with drivers, monitors, model hooks, a delayed signal and background traffic, and one to three faults "
        "(site, cycle, occurrence) out of " + ", ".join(SITES) + ", at any cycle including the last, under seeded garbage collection; "
        "the run must fail exactly when a fault fired, within two DUT cycles; non-trivial when a fault fired")
STATE_MEASURE = "(failing site, cycle relative to the end of the test, cycles until the run ended)"


class Boom(Exception):
    pass


class Outcome(BaseException):
    """Like the failures of pytest.fail()."""


class Interrupt(KeyboardInterrupt):
    """Like the user's Ctrl-C."""


def gen(rng, index):
    h = rng.randint(2, 8)
    n = rng.choice([0, 1, 1, 1, 1, 1, 2, 3])
    sites = SITES + [s for s in SITES if "driver" in s or "mismatch" in s] * 2
    return {
        "horizon": h,
        "faults": [[rng.choice(sites), rng.choice([rng.randint(0, h), h, h - 1])] for _ in range(n)],
        "calls": [[rng.randint(0, h), rng.randint(1, 3)] for _ in range(rng.randint(1, 8))],
        "awaited": rng.random() < 0.5, "latency": rng.randint(0, 3),
        "queue": rng.random() < 0.5, "ballast": rng.randint(0, 3), "end_call": rng.random() < 0.4,
        "mode": rng.choice(MODES), "env": rng.random() < 0.7, "keep_env": rng.random() < 0.5,
        "exc": rng.choice(["Boom", "Outcome", "SystemExit", "Interrupt", "ValueError", "AssertionError", "KeyError", "IndexError", "TimeoutError", "RuntimeError", "StopAsyncIteration", "OSError"]),
    }


def nontrivial(sim, case):
    return bool(sim.faults)


def run(sim, case):
    st = {"fired": [], "keep": []}
    faults = [tuple(f) for f in case["faults"]]
    EXC = {"Boom": Boom, "Outcome": Outcome, "Interrupt": Interrupt}.get(case["exc"]) or getattr(builtins, case["exc"])

    def due(site, latency=0, used=set()):
        for i, (s, c) in enumerate(faults):
            if s == site and st["dut"].cycle == c and i not in used:
                used.add(i)
                st["fired"].append((site, c + latency))  # the failure happens when the comparison is made
                sim.fault(site)
                sim.log("fault", site, c)
                return True
        return False

    def boom(site):
        sim.log("at", site, st["dut"].cycle)
        if due(site):
            raise EXC(f"injected at {site}")

    class IO(Bundle):
        a, b = Signals(2)

    class Ag(Agent):
        @driver_method()
        async def drv(self, x, n):
            boom("driver_body" if not st.get("in_bg") else "driver_body_bg")
            for _ in range(n):
                await self.bundle.step()
                boom("driver_body")
            return x

        @driver_method()
        async def aux(self, x, n):
            for _ in range(n):
                await self.bundle.step()
                boom("driver_body_bg")
            return x

        @monitor_method()
        async def mon(self):
            boom("monitor_body")
            return self.bundle.b.value

        @monitor_method()
        async def mon2(self):
            return self.bundle.b.value

    class MyEnv(Env):
        def __init__(self, bundle):
            super().__init__()
            self.ag = Ag(bundle)

    class M(Model):
        @driver_hook("ag.drv")
        def on_drv(self, x, n):
            boom("driver_hook")
            return x if not due("mismatch", n) else x + 1

        @driver_hook("ag.aux", sche_order="dut_first")
        def on_aux(self, x, n):
            boom("driver_hook_dut_first")
            return x if not due("mismatch_dut_first") else x + 1

        @monitor_hook("ag.mon")
        def on_mon(self, v):
            boom("monitor_hook")

        async def main(self):
            while True:
                boom("model_main")
                await st["bundle"].step()

    class M2(Model):
        @agent_hook("ag")
        def on_agent(self, name, args):
            if name.endswith("mon") or name.endswith("mon2"):
                boom("agent_hook_mon")
            else:
                boom("agent_hook")
                boom("hook_via_executor")

    class Comp(Component):
        async def main(self):
            while True:
                await st["bundle"].step()
                boom("component")

    def setup():
        dut = st["dut"] = SimDut(sim, ["io_a", "io_b"])
        step_faults = [c for s, c in faults if s == "dut_step"]

        def on_step(d):
            d.io_b._v = d.cycle
            if d.cycle in step_faults:
                st["fired"].append(("dut_step", d.cycle))
                sim.fault("dut_step")
                raise OSError("simulated DUT failure")
        dut.on_step_func = on_step
        start_clock(dut)
        st["bundle"] = IO.from_prefix("io_").bind(dut)

        class FlakyPin:
            @property
            def value(self):
                boom("pin_read")
                return dut.cycle
        d = Delayer(FlakyPin(), 1)
        env = MyEnv(st["bundle"])
        env.attach(M()).attach(M2())
        if case["queue"]:
            env.ag.start_monitor("mon", 2)
        st["comp"] = Comp()
        if case["keep_env"]:
            st["env"] = env
        return env, d

    async def body(env, d):
        dut = st["dut"]

        async def ballast():
            while True:
                await ClockCycles(dut, 1)
                await yields(2)

        async def failing_bg():
            while True:
                boom("bg")
                await ClockCycles(dut, 1)

        async def inner():
            while True:
                await ClockCycles(dut, 1)
                boom("bg_nested")

        async def nested():
            await inner()

        for _ in range(case["ballast"]):
            create_task(ballast())
        create_task(failing_bg())
        create_task(nested())

        async def member(i):
            for _ in range(i):
                await yields(1)
            await ClockCycles(dut, 1)
            boom("gathered")
            return i

        async def gatherer():
            while True:
                sim.check(await toffee.asynchronous.gather(member(0), member(2), member(1)) == [0, 2, 1], "wrong-results", "gather's results")

        async def joined():
            await ClockCycles(dut, 1)
            boom("task_joined")

        async def joiner():
            while True:
                await create_task(joined())
        create_task(gatherer())
        create_task(joiner())

        async def caller(lat, n):
            await ClockCycles(dut, lat)
            await env.ag.aux(dut.cycle, n)

        async def drv_caller(n):
            await env.ag.drv(dut.cycle, n)

        while dut.cycle < case["horizon"]:
            boom("test")
            c = dut.cycle
            for at, n in case["calls"]:
                if at == c:
                    create_task(caller(case["latency"], n))
                    if case["awaited"]:
                        await env.ag.drv(dut.cycle, 1)
                    else:
                        create_task(drv_caller(n))
            if dut.cycle == c:
                await ClockCycles(dut, 1)
        boom("test")
        if case["end_call"]:
            # the comparison of this call happens after the test has ended
            await env.ag.aux(dut.cycle, 1)
        st["end"] = dut.cycle

    if case["env"]:
        kind, val = sim.toffee_run(body, setup, case["mode"])
    else:
        async def test():
            await body(*setup())
        kind, val = sim.toffee_run(test, None, case["mode"])
    final = st["dut"].cycle
    sim.log("outcome", kind, final)
    fired = [f for f in st["fired"] if not (f[0] == "mismatch" and "end" in st and f[1] > st["end"])]
    if not fired and st["fired"]:
        return  # the call was cancelled at the end of the test before its comparison
    if not fired:
        if kind == "exc":
            raise val
        return
    first = min(c for _, c in fired)
    site = fired[0][0]
    sim.state(site, first - st.get("end", case["horizon"]), final - first)
    # a DUT error raised by the very last closing step is after the end of the test
    if site == "dut_step" and "end" in st and first > st["end"] + 1:
        return
    sim.check(kind == "exc", f"silent-failure:{site}", f"failures {fired} were injected, the run returned normally in cycle {final}")
    sim.check(final - first <= 2, f"late-failure:{site}", f"failures {fired} were injected, the run ended only in cycle {final}")
