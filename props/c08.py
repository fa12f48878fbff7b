"""C08: delayed signals are sampled once per cycle."""
from .common import *

ID = "C08"
QUICK, THOROUGH = 4000, 120000
RULE = ("a case is a DUT-driven and a task-driven signal, several delayed signals created at random cycles by tasks, driver bodies or hooks, and random "
        "activity (driver calls with model-first/DUT-first hooks, monitor hooks, events, yields) per cycle; each delayed value read at random points of "
        "every cycle is compared with the settled waveform recorded just before each DUT step; non-trivial when a delayed value became defined")
STATE_MEASURE = "(delay, samples taken capped, hook calls so far in the cycle)"


def gen(rng, index):
    h = rng.randint(4, 14)
    many = rng.choice([0] * 20 + [1])
    if many:
        h = rng.randint(30, 120)
    return {
        "horizon": h,
        "delays": [[rng.randint(0, h // 2), rng.choice([0, 0, 1, 2, 3, 5] + [rng.randint(4, h)] * (1 + 9 * many)), rng.choice(["dutpin", "taskpin", "raw"]), rng.choice(["task", "hook", "env"]) if not many else "task"]
                   for _ in range(rng.randint(1, 4) if not many else rng.choice([2, 80]))],
        "wave": [rng.randint(0, 9) for _ in range(h + 4)],
        "writes": [[rng.randint(0, h), rng.randint(0, 3), rng.randint(0, 99)] for _ in range(rng.randint(0, 8))],
        "hookwrites": [[rng.randint(0, h), rng.randint(100, 199)] for _ in range(rng.choice([0, 1, 3]))],
        "calls": [[rng.randint(0, h), rng.choice(["drv", "aux"]), rng.randint(1, 2)] for _ in range(rng.randint(0, 8))],
        "mon_hook": rng.random() < 0.5, "reads": rng.randint(1, 3), "read_yield": rng.randint(0, 4),
        "mode": rng.choice(MODES),
    }


def nontrivial(sim, case):
    return sim.probes.get("defined", 0) > 0


def run(sim, case):
    st = {"delayers": [], "hooks": 0, "settled": {}, "keep": [], "hw": set()}

    class IO(Bundle):
        a, b = Signals(2)

    def make(where):
        for i, (at, d, src, how) in enumerate(case["delays"]):
            if at == st["dut"].cycle and how == where and not any(r["i"] == i for r in st["delayers"]):
                sig = {"dutpin": st["bundle"].b, "taskpin": st["bundle"].a, "raw": st["dut"].io_b}[src]
                st["delayers"].append({"i": i, "d": d, "key": "a" if src == "taskpin" else "b", "t0": st["dut"].cycle, "obj": Delayer(sig, d)})

    def read(where):
        c = st["dut"].cycle
        for r in st["delayers"]:
            k = c - 1 - r["d"]
            want = st["settled"][k][r["key"]] if k >= r["t0"] else None
            got = r["obj"].value
            sim.log("read", where, c, r["i"], got)
            sim.state(r["d"], min(c - r["t0"], 8), min(st["hooks"], 4))
            if want is not None:
                sim.probe("defined")
            sim.check(got == want, "wrong-sample", f"{where} in cycle {c}: a delay-{r['d']} signal created in cycle {r['t0']} reads {got}, the settled "
                      f"waveform of cycle {k} says {want}")

    def hook():
        st["hooks"] += 1
        sim.probe("hook")
        make("hook")
        for i, (at, v) in enumerate(case["hookwrites"]):
            if at == st["dut"].cycle and i not in st["hw"]:
                st["hw"].add(i)
                st["bundle"].a.value = v
        read("hook")

    class Ag(Agent):
        @driver_method()
        async def drv(self, n):
            read("driver")
            for _ in range(n):
                await self.bundle.step()

        @driver_method()
        async def aux(self, n):
            await self.bundle.step(n)

        @monitor_method()
        async def mon(self):
            return st["dut"].cycle

    class MyEnv(Env):
        def __init__(self, bundle):
            super().__init__()
            self.ag = Ag(bundle)

    ns = {}

    @driver_hook("ag.drv")
    def on_drv(self, n):
        hook()

    @driver_hook("ag.aux", sche_order="dut_first")
    def on_aux(self, n):
        hook()
    ns["on_drv"], ns["on_aux"] = on_drv, on_aux
    if case["mon_hook"]:
        @monitor_hook("ag.mon")
        def on_mon(self, v):
            hook()
        ns["on_mon"] = on_mon
    M = type("M", (Model,), ns)

    def setup():
        dut = st["dut"] = SimDut(sim, ["io_a", "io_b"])
        wave = case["wave"] or [0]

        def drive(d):
            d.io_b._v = wave[d.cycle % len(wave)]
            st["hooks"] = 0

        def settle(d):
            st["settled"][d.cycle] = {"a": d.io_a.value, "b": d.io_b.value}
        drive(dut)
        dut.on_step_func, dut.pre_step_func = drive, settle
        start_clock(dut)
        st["bundle"] = IO.from_prefix("io_").bind(dut)
        env = MyEnv(st["bundle"])
        env.attach(M())
        make("env")
        return env

    async def body(env):
        dut = st["dut"]

        async def writer(y, v):
            await yields(y)
            st["bundle"].a.value = v

        async def reader():
            while True:
                for _ in range(case["reads"]):
                    read("task")
                    await yields(case["read_yield"])
                await ClockCycles(dut, 1)

        async def call(name, n):
            await getattr(env.ag, name)(n)
            make("task")
            read("after driver")
        st["keep"].append(create_task(reader()))
        while dut.cycle < case["horizon"]:
            make("task")
            read("test")
            for at, y, v in case["writes"]:
                if at == dut.cycle:
                    st["keep"].append(create_task(writer(y, v)))
            for at, name, n in case["calls"]:
                if at == dut.cycle:
                    st["keep"].append(create_task(call(name, n)))
            await ClockCycles(dut, 1)
        for t in st["keep"]:
            if t.done():
                t.result()

    kind, val = sim.toffee_run(body, setup, case["mode"])
    if kind == "exc":
        raise val
