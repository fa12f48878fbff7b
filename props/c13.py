"""C13: attaching and detaching models takes effect exactly."""
from .bench import *

ID = "C13"
QUICK, THOROUGH = 3000, 100000
BAD = [["driver", p, w] for p in (0, 1) for w in ("noagent", "nomethod", "other")] + [["monitor", p, w] for p in (0, 1) for w in ("noagent", "nomethod", "other")] + \
      [["agent", p, w] for p in (0, 1) for w in ("noagent", "nomethod", "other", "list", "attr", "name")]
RULE = ("a case is one to three environments (each with a subset of the agents), several models of several classes (some naming something that does not exist), "
        "and a random history of attach and detach operations at random points of random cycles, concurrent with driver and monitor traffic in all environments; "
        "acceptance of each attach and the traffic seen by every hook and port are compared with the history; non-trivial when a model was detached or moved")
STATE_MEASURE = "(operation, outcome, models attached in the environment, was attached)"


def gen(rng, index):
    h = rng.randint(3, 10)
    agents = gen_agents(rng)
    for a in agents:
        for d in a["drivers"]:
            if d["sig"] in UNNAMED:
                d["sig"] = "x"
        for m in a["monitors"]:
            m["val"] = 0
    envs = [list(range(len(agents)))] + [sorted(rng.sample(range(len(agents)), rng.randint(1, len(agents)))) for _ in range(rng.choice([0, 1, 1, 2]))]
    models = [gen_model(rng, agents) for _ in range(rng.choice([1, 1, 2, 3]))]
    for m in models:
        # models that name little fit into environments that have little
        k = rng.random()
        if k < 0.3 and len(m["targets"]) > 1:
            m["targets"] = rng.sample(m["targets"], rng.choice([1, 1, 2]))
        elif k < 0.5:
            t = gen_agent_target(rng, agents)
            t.update(prio=50, order="model_first", consume=rng.random() < 0.6, uses=rng.choice([0, 1]), port=rng.random() < 0.5)
            m["targets"] = [t]
        if rng.random() < 0.2:
            m["bad"] = rng.choice(BAD)
    insts = [[rng.randrange(len(models))] for _ in range(rng.randint(1, 4) if rng.random() < 0.93 else rng.randint(5, 12))]
    insts = [i[0] for i in insts]
    if len(insts) > 4:
        # many models attached at once: usually ones that fit
        for m in models:
            if m.get("bad") and rng.random() < 0.8:
                del m["bad"]
        if rng.random() < 0.5:
            envs = [list(range(len(agents))) for _ in envs[:2]]
    ops = [[rng.choice([-1, rng.randint(0, h), rng.randint(0, h)]), rng.randint(0, 5), rng.choice(["attach", "attach", "attach", "detach", "detach"]),
            rng.randrange(len(insts)), rng.randrange(len(envs))] for _ in range(rng.randint(1, 10) if rng.random() < 0.9 and len(insts) < 5 else rng.randint(10, 40))]
    calls = [gen_call(rng, agents, i, h) for i in range(rng.randint(1, 10))]
    if rng.random() < 0.5:
        rng.shuffle(envs)
    for c in calls:
        c["e"] = rng.choice([e for e, idx in enumerate(envs) if c["a"] in idx])
    return {"horizon": h, "agents": agents, "envs": envs, "same_env_class": rng.random() < 0.7, "models": models, "insts": insts, "ops": ops, "calls": calls, "mode": rng.choice(MODES)}


def nontrivial(sim, case):
    return "detached" in sim.probes or "moved" in sim.probes


def run(sim, case):
    b = Bench(sim, case)
    for c in case["calls"]:
        if not 0 <= c["e"] < len(case["envs"]) or c["a"] not in case["envs"][c["e"]]:
            raise InvalidCase()
    if not case["insts"] or any(not 0 <= i < len(case["models"]) for i in case["insts"]) or any(x >= len(case["agents"]) for e in case["envs"] for x in e):
        raise InvalidCase()
    models = []
    b.mon_value = lambda agent, path, m, n: None if n % (m["every"] or 1) else (path, agent.env_idx, b.dut.cycle)

    def ok_for(mi, e):
        """From the spec: everything the model names exists in environment e."""
        m = case["models"][mi]
        idx = case["envs"][e]
        return not m.get("bad") and all(set(t["agents"]) | {x[0] for x in t["methods"]} <= set(idx) for t in m["targets"])

    def cur(n, e):
        """e if the model says it is attached"""
        return e if models[n].is_attached() else None

    def op(kind, n, e):
        if n >= len(models) or e >= len(b.envs):
            raise InvalidCase()
        model, mi = models[n], case["insts"][n]
        before = b.attached.get((mi, n))
        others = {k: v for k, v in b.attached.items() if k != (mi, n)}
        if kind == "attach":
            want = ok_for(mi, e)
            try:
                r = b.envs[e].attach(model)
                got = True
                sim.check(r is b.envs[e], "attach-chain", "attach did not return the environment")
            except ValueError as x:
                got, err = False, x
                sim.fault("attach_rejected")
            sim.check(got == want, "wrong-acceptance", f"attach of model {n} (class {mi}) to environment {e} was {'accepted' if got else f'rejected: {err}'}, "
                      f"it names {'only existing things' if want else 'something that does not exist there'}")
            now = cur(n, e if got else before)
            if got:
                sim.check(now == e, "wrong-attachment", f"after attaching model {n} to {e} it says {now}")
                if before is not None:
                    sim.probe("moved")
            else:
                sim.check(before is not None or not models[n].is_attached(), "wrong-attachment",
                          f"after a rejected attach to {e} model {n} (not attached before) says it is attached")
        else:
            b.envs[e].unattach(model)
            now = cur(n, before)
            want = None if before == e else before
            if before == e:
                sim.probe("detached")
            sim.check(now == want, "wrong-attachment", f"detaching model {n} (attached to {before}) from {e}: it says {now}")
        b.attached[(mi, n)] = now
        b.ev("op", op=kind, n=n, env=e, now=now)
        sim.state(kind, now == e, len([1 for v in others.values() if v == e]), before is not None, before == e)
        for (mj, k), v in b.attached.items():
            sim.check(models[k].is_attached() == (v is not None), "wrong-attachment",
                      f"after {kind} of model {n}/{e}: model {k} should be attached to {v}, it says {models[k].is_attached()}")

    async def later(at, y, f):
        await ClockCycles(b.dut, at)
        await yields(y)
        f()

    def setup():
        b.make_dut()
        for e, idx in enumerate(case["envs"]):
            b.make_env(e, idx)
        for n, mi in enumerate(case["insts"]):
            models.append(b.make_model(mi, n))
        for h in b.ports:
            if h["t"]["consume"]:
                b.consume(h)
        for at, y, kind, n, e in case["ops"]:
            if at < 0:
                op(kind, n, e)
        return b.dut

    async def body(dut):
        for at, y, kind, n, e in case["ops"]:
            if at >= 0:
                b.keep.append(create_task(later(at, y, lambda k=kind, n=n, e=e: op(k, n, e))))
        for cid, c in enumerate(case["calls"]):
            async def go(cid=cid, c=c):
                await ClockCycles(dut, c["at"])
                await yields(c["pre"])
                await b.call(cid, c["e"])
            b.keep.append(create_task(go()))
        await ClockCycles(dut, case["horizon"])
        await yields(3)
        for t in b.keep:
            if t.done():
                t.result()

    kind, val = sim.toffee_run(body, setup, case["mode"])
    if kind == "exc":
        raise val
    b.drain()

    def where(n, lo, hi):
        """The environments model n was attached to between two points of the history."""
        out, cur_ = [], None
        for e in b.hist:
            if e["k"] == "op" and e["n"] == n:
                if e["seq"] > hi:
                    break
                if e["seq"] > lo:
                    out.append(cur_)
                cur_ = e["now"]
        out.append(cur_)
        return out

    def end_of_cycle(c):
        return max(e["seq"] for e in b.hist if e["c"] == c)

    for n, mi in enumerate(case["insts"]):
        for ti, t in enumerate(case["models"][mi]["targets"]):
            port = b.is_port(mi, t)
            allowed, needed = [], []

            def due(key, env, lo, hi):
                w = where(n, lo, hi)
                if any(x == env for x in w):
                    allowed.append(key)
                    if all(x == env for x in w):
                        needed.append(key)

            for e in b.hist:
                if e["k"] == "issue" and b.matches(t, b.calls[e["cid"]]["a"], "drivers", b.calls[e["cid"]]["d"]):
                    if port:
                        due(("call", e["cid"]), e["env"], e["seq"], e["seq"])
                    elif t["order"] == "model_first":
                        due(("call", e["cid"]), e["env"], e["seq"], end_of_cycle(e["c"]))
                    else:
                        end = b.of("body_end", cid=e["cid"])
                        if end:
                            due(("call", e["cid"]), e["env"], e["seq"], end_of_cycle(end[0]["c"]))
                elif e["k"] == "mon_end" and e["v"] is not None:
                    for i, a in enumerate(case["agents"]):
                        for j in range(len(a["monitors"])):
                            if b.path(i, "monitors", j) == e["path"] and b.matches(t, i, "monitors", j):
                                due(("mon", e["v"]), e["env"], e["seq"], e["seq"] if port else end_of_cycle(e["c"]))
            got = []
            for e in b.of("port" if port else "hook", m=mi, inst=n, ti=ti):
                v = e["v"]
                if port and t["t"] == "agent":
                    v = v[1]
                if isinstance(v, tuple):
                    got.append(("mon", v))
                else:
                    got.append(("call", v["x"] if isinstance(v, dict) else v))
            name = f"model {n} (class {mi}) {t['t']} {'port' if port else 'hook'}"
            extra = [g for k, g in enumerate(got) if g not in allowed or g in got[:k]]
            sim.check(not extra, "unattached-traffic", f"{name} received {extra} which it should not (or twice); attachment history "
                      f"{[(e['c'], e['op'], e['env'], e['now']) for e in b.of('op', n=n)]}")
            miss = [x for x in needed if x not in got]
            sim.check(not miss, "missing-traffic", f"{name} did not receive {miss}; attachment history {[(e['c'], e['op'], e['env'], e['now']) for e in b.of('op', n=n)]}")
