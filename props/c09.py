"""C09: monitors sample every cycle and deliver every result once."""
from .bench import *

ID = "C09"
QUICK, THOROUGH = 3000, 100000
RULE = ("a case is one to three agents with monitors (bodies that wait or not, yield, return None or falsy values), up to five models with monitor hooks, "
        "monitor ports, agent hooks and agent ports in every matching style, attached at set-up or at a random cycle, an optionally enabled monitor queue, "
        "consumers, driver traffic and an environment created at a random cycle; the calls and the deliveries to every hook, port and queue are compared "
        "with the specification; non-trivial when a result was delivered to a hook, port or queue")
STATE_MEASURE = "(monitor wait, delivery kind, cycle of delivery relative to creation, models attached)"


def gen(rng, index):
    h = rng.randint(2, 10) if rng.random() < 0.97 else rng.randint(30, 140)
    agents = gen_agents(rng, drivers=rng.random() < 0.6)
    if not any(a["monitors"] for a in agents):
        agents[0]["monitors"].append({"name": "m0", "every": 1, "wait": 0, "val": 0, "yield": 0})
    models = [gen_model(rng, agents) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5]))]
    for m in models:
        m["at"] = rng.choice([-1, -1, rng.randint(0, h)])
        m["ay"] = rng.randint(0, 6)
    calls = [gen_call(rng, agents, i, h) for i in range(rng.randint(0, 6) if any(a["drivers"] for a in agents) else 0)]
    mons = [[i, j] for i, a in enumerate(agents) for j in range(len(a["monitors"]))]
    return {"horizon": h, "agents": agents, "models": models, "calls": calls, "env_at": rng.choice([-1, -1, -1, rng.randint(0, h - 1)]),
            "queues": [[m, rng.randint(-1, h), rng.randint(0, 4), rng.choice([1000, 1000, 1, 1, 2, 3]), rng.choice([0, 1, 2])]
                       for m in mons if rng.random() < 0.5],
            "end_yield": rng.randint(0, 4), "mode": rng.choice(MODES)}


def nontrivial(sim, case):
    return sim.probes.get("delivered", 0) > 0


def run(sim, case):
    b = Bench(sim, case)
    st = {"created": None, "q": {}}

    def create():
        env = b.make_env()
        st["created"] = b.dut.cycle
        for mi, m in enumerate(case["models"]):
            if m["at"] < 0:
                b.attach(b.make_model(mi), mi)
        for h in b.ports:
            if h["t"]["consume"]:
                b.consume(h)
        for q in case["queues"]:
            if q[1] < 0:
                start(q)
        return env

    def start(q):
        (i, j), at, y, size, cons = q
        if i >= len(b.agents) or j >= len(b.agents[i]["monitors"]):
            raise InvalidCase()
        name = b.agents[i]["monitors"][j]["name"]
        p = b.path(i, "monitors", j)
        if p in st["q"]:
            raise InvalidCase()
        getattr(b.envs[0], b.agents[i]["name"]).start_monitor(name, size)
        b.ev("qstart", path=p, size=size)
        st["q"][p] = (i, name, size, cons)
        for _ in range(cons):
            async def consumer(ag=getattr(b.envs[0], b.agents[i]["name"]), name=name, p=p):
                while True:
                    v = await getattr(ag, name)()
                    b.ev("qget", path=p, v=v, live=True)
            b.keep.append(create_task(consumer()))

    async def later(at, y, f):
        await ClockCycles(b.dut, at - b.dut.cycle)
        await yields(y)
        if b.envs and not b.over:
            f()

    def setup():
        b.make_dut()
        if case["env_at"] < 0:
            create()
        return b.dut

    async def body(dut):
        for mi, m in enumerate(case["models"]):
            if m["at"] >= 0 and m["at"] <= case["horizon"]:
                def f(mi=mi):
                    n = len(b.ports)
                    b.attach(b.make_model(mi), mi)
                    for h in b.ports[n:]:
                        if h["t"]["consume"]:
                            b.consume(h)
                b.keep.append(create_task(later(m["at"], m["ay"], f)))
        for q in case["queues"]:
            if q[1] >= 0:
                b.keep.append(create_task(later(q[1], q[2], lambda q=q: start(q))))
        while dut.cycle < case["horizon"]:
            if case["env_at"] == dut.cycle:
                create()
            for cid, c in enumerate(case["calls"]):
                if c["at"] == dut.cycle and b.envs:
                    b.keep.append(create_task(b.call(cid)))
            await ClockCycles(dut, 1)
        await yields(case["end_yield"])
        for t in b.keep:
            if t.done():
                t.result()
        return "done"

    kind, val = sim.toffee_run(body, setup, case["mode"])
    b.over = True
    if kind == "exc":
        raise val
    if st["created"] is None:
        return
    last = case["horizon"]
    b.drain()
    for p, (i, name, size, cons) in st["q"].items():
        async def rest(ag=getattr(b.envs[0], b.agents[i]["name"])):
            while ag.monitor_size(name):
                b.ev("qget", path=p, v=await getattr(ag, name)(), live=False)
        asyncio.run(rest())
    for i, a in enumerate(case["agents"]):
        for j, m in enumerate(a["monitors"]):
            check_monitor(sim, b, st, i, j, m, last)


def check_monitor(sim, b, st, i, j, m, last):
    p = b.path(i, "monitors", j)
    starts = [e["c"] for e in b.of("mon_start", path=p)]
    want = list(range(st["created"] + 1, last + 1, m["wait"] + 1))
    sim.check(starts == want, "wrong-call-cycles", f"monitor {p} (waits {m['wait']}) created in cycle {st['created']}, run ended in {last}: called in {starts}, "
              f"expected {want}")
    ends = [e for e in b.of("mon_end", path=p) if e["v"] is not None]
    for mi, ms in enumerate(b.models_spec):
        for ti, t in enumerate(ms["targets"]):
            if not b.matches(t, i, "monitors", j):
                continue
            exp = [e for e in ends if (mi, 0) in e["att"]]
            vals = [e["v"] for e in exp]
            if b.is_port(mi, t):
                evs = [e for e in b.of("port", m=mi, ti=ti) if t["t"] == "monitor" or e["v"][0] == p]
                got = [e["v"] if t["t"] == "monitor" else e["v"][1] for e in evs]
                live = [(e["c"], x["c"]) for e, x in zip(evs, exp) if e["live"]]
            else:
                evs = b.of("hook", m=mi, ti=ti, path=p)
                got = [e["v"] for e in evs]
                live = [(e["c"], x["c"]) for e, x in zip(evs, exp)]
            sim.check(len(got) == len(vals) and all(same(x, y) for x, y in zip(got, vals)), f"wrong-delivery:{t['t']}-{'port' if b.is_port(mi, t) else 'hook'}",
                      f"monitor {p} produced {[(e['c'], e['v']) for e in ends]} (model {mi} attached for {vals}), target {t['t']}/{t['style']} received {got}")
            sim.check(all(x == y for x, y in live), "late-delivery", f"monitor {p} -> model {mi} target {t['t']}: (delivered in, produced in) {live}")
            if got:
                sim.probe("delivered", len(got))
                for x, y in live:
                    sim.state(m["wait"], t["t"], b.is_port(mi, t), min(x - st["created"], 6), len(exp[0]["att"]))
    if p in st["q"]:
        q0 = b.of("qstart", path=p)[0]
        exp = [e for e in ends if e["seq"] > q0["seq"]]
        evs = b.of("qget", path=p)
        size, cons = st["q"][p][2:]
        if not cons:
            exp = exp[:size]  # nobody takes anything out while the run lasts: the oldest are kept
        sim.check(len(evs) == len(exp) and all(same(x["v"], y["v"]) for x, y in zip(evs, exp)), "wrong-delivery:queue",
                  f"queue of {p} (size {size}, {cons} consumers) gave {[e['v'] for e in evs]}, expected {[e['v'] for e in exp]}")
        sim.probe("delivered", len(evs))
        for e in evs:
            if e["live"] and cons:
                x = exp[evs.index(e)]
                sim.check(e["c"] == x["c"], "late-delivery", f"queue of {p}: item of cycle {x['c']} received in {e['c']}")
