"""A random verification environment (agents, drivers, monitors, models with hooks and ports) and its history.

Shared by C09-C13.  The bench runs the real Agent/Env/Model/Executor code and records, with a global sequence
number and the DUT cycle, when calls are issued, bodies start and end, hooks run, monitors produce and ports
are consumed.  The properties compare that history with what the generated spec says.
"""
import contextvars
import inspect

from .common import *
from toffee.model import AgentPort, DriverPort, MonitorPort

PARAMS = {"none": "", "x": "x", "xy": "x, y", "xd": "x, y=7", "xk": "x, *, k=3", "xs": "x, *rest", "kw": "x, **extra", "ak": "x, *args, **kwargs",
          "xdd": "x, y=None, z=0", "pos": "x, y, /, z=5", "v": "v", "vw": "v, w=0", "xa": "x, agent=4, args=()",
          "many": "x, p1=1, p2=2, p3=3, p4=4, p5=5, p6=6, p7=7"}
UNNAMED = ("none", "v", "vw")  # drivers whose arguments do not identify the call, so that calls may be equal
VALUES = [0, 1, None, "", "s", [1, 2], {"a": 1}, False, -5, 2 ** 70, 1.5, True, 1.0, [True, 2], {"a": True}, 0.0]
AGENTS = ["ag", "bg", "my_agent", "dg", "e_g", "f"]


# ---------------------------------------------------------------------------------------------------
# generation
# ---------------------------------------------------------------------------------------------------

def gen_agents(rng, monitors=True, drivers=True):
    out = []
    large = rng.random() < 0.04
    for i in range(rng.choice([1, 1, 2, 3]) if not large else rng.randint(3, 6)):
        a = {"name": AGENTS[i], "drivers": [], "monitors": []}
        if drivers:
            a["drivers"] = [{"name": f"d{j}", "sig": rng.choice(["x", "x", "xy", "xd", "xk", "xs", "kw", "ak", "xdd", "pos", "xa", "many"] + (["none", "v", "vw"] if j else []))}
                            for j in range(rng.randint(1, 3 if not large else 7))]
            for d in a["drivers"]:
                if rng.random() < 0.1:
                    d["me"] = rng.choice(["this", "me", "_"])
        if monitors and (rng.random() < 0.6 or not drivers):
            a["monitors"] = [{"name": f"m{j}", "every": rng.choice([1, 1, 2, 3]), "wait": rng.choice([0, 0, 0, 1, 2]), "val": rng.randint(0, 6),
                              "yield": rng.choice([0, 0, 1, 3])}
                             for j in range(rng.randint(1, 2 if not large else 5))]
        for d in a["drivers"] + a.get("monitors", []):
            if rng.random() < 0.1:
                d["sup"] = True
        if i and rng.random() < 0.3:
            # a second instance of an earlier agent's class
            o = rng.choice(out)
            a = {"name": a["name"], "cls": out.index(o), "drivers": [dict(d) for d in o["drivers"]],
                 "monitors": [dict(m, every=rng.choice([1, 2, 3]), wait=rng.choice([0, 0, 1])) for m in o["monitors"]]}
        a["inh"] = rng.choice([0, 0, 1, 2])
        a["by_step"] = rng.random() < 0.1
        out.append(a)
    out[0]["env_inh"] = rng.choice([0, 0, 1])
    return out


def methods_of(agents):
    return [[i, k, j] for i, a in enumerate(agents) for k in ("drivers", "monitors") for j in range(len(a[k]))]


def gen_agent_target(rng, agents):
    style = rng.choice(["name", "attr", "agents", "methods", "both"])
    t = {"t": "agent", "style": style, "agents": [], "methods": []}
    idx = list(range(len(agents)))
    if style in ("name", "attr"):
        t["agents"] = [rng.choice(idx)]
    elif style == "agents":
        t["agents"] = rng.sample(idx, rng.randint(1, len(idx)))
    if style in ("methods", "both"):
        ms = methods_of(agents)
        t["methods"] = rng.sample(ms, rng.randint(1, min(3, len(ms))))
        if style == "both":
            t["agents"] = [rng.choice(idx)]
    return t


def gen_model(rng, agents, kind=None, orders=("model_first", "dut_first"), monitors=True):
    kind = kind or rng.choice(["hooks", "hooks", "ports", "mixed"])
    prio = lambda: rng.choice([0, 5, 5, 50, 98, 99, 99, rng.randint(0, 99)])
    m = {"kind": kind, "targets": [], "main": rng.random() < 0.3, "deco": rng.random() < 0.4}
    for i, a in enumerate(agents):
        for j, d in enumerate(a["drivers"]):
            if rng.random() < 0.6:
                m["targets"].append({"t": "driver", "agents": [i], "methods": [[i, "drivers", j]], "style": rng.choice(["path", "pair", "agent", "attr"]),
                                     "prio": prio(), "order": rng.choice(orders)})
        if monitors:
            for j, d in enumerate(a["monitors"]):
                if rng.random() < 0.6:
                    m["targets"].append({"t": "monitor", "agents": [i], "methods": [[i, "monitors", j]], "style": rng.choice(["path", "pair", "agent", "attr"]),
                                         "prio": prio(), "order": "", "port": rng.random() < 0.3})
    for _ in range(rng.choice([0, 0, 1, 2]) if rng.random() < 0.94 else rng.randint(3, 6)):
        t = gen_agent_target(rng, agents)
        t.update(prio=prio(), order=rng.choice(orders))
        m["targets"].append(t)
    # one hook or port cannot share its attribute name with another
    seen, out = set(), []
    for t in m["targets"]:
        k = attr_of(t, agents, len(out))
        if k not in seen:
            seen.add(k)
            out.append(t)
    m["targets"] = out
    for t in m["targets"]:
        t["consume"] = rng.random() < 0.6
        t["uses"] = rng.choice([0, 0, 1, 2])
    if kind == "mixed":
        # some drivers go to hooks, others to ports (a driver with both goes to the ports only, as documented; this is left out)
        for t in m["targets"]:
            if t["t"] != "monitor":
                t["port"] = rng.random() < 0.5
        both = rng.choice([any, all])
        for _ in m["targets"]:
            for t in m["targets"]:
                for u in m["targets"]:
                    if t["t"] != "monitor" != u["t"] and drivers_of(t, agents) & drivers_of(u, agents):
                        u["port"] = t["port"] = both([u["port"], t["port"]])
    m["inh"] = rng.choice([0, 0, 1, 2])
    return m


def drivers_of(t, agents):
    return {(i, j) for i in (t["agents"] if t["t"] == "agent" else []) for j in range(len(agents[i]["drivers"]))} | \
           {(i, j) for i, k, j in t["methods"] if k == "drivers"}


def derive(name, base, ns, how):
    """A class with the given members: its own (0), half of them inherited (1), inherited and partly overriding (2)."""
    if not how:
        return type(name, (base,), ns)
    keys = [k for k in ns if k != "__init__"]
    mine = {k: ns[k] for k in keys[::2]}
    if "__init__" in ns:
        mine["__init__"] = ns["__init__"]
    theirs = {k: ns[k] for k in keys[1::2]}
    if how == 2:
        def hide(k):
            def hidden(self, *a, **kw):
                raise RuntimeError("an overridden method was used")
            hidden.__dict__.update(ns[k].__dict__)
            hidden.__name__ = k
            if hasattr(hidden, "__original_func__"):
                hidden.__original_func__ = hidden
            return hidden
        theirs.update({k: hide(k) for k in keys[::2]})
    return type(name, (type(name + "Base", (base,), theirs),), mine)


def attr_of(t, agents, n):
    if t["style"] == "attr":
        if t["t"] == "agent":
            return agents[t["agents"][0]]["name"]
        i, k, j = t["methods"][0]
        return f"{agents[i]['name']}__{agents[i][k][j]['name']}"
    if t["style"] == "agent":
        i, k, j = t["methods"][0]
        return agents[i][k][j]["name"]
    return f"t{n}"


def gen_args(rng, sig, cid):
    """(positional, keyword) arguments of one call; the first argument identifies the call."""
    v = lambda: rng.choice(VALUES)
    if sig == "none":
        return [[], {}]
    if sig == "v":
        return [[v()], {}] if rng.random() < 0.7 else [[], {"v": v()}]
    if sig == "vw":
        return rng.choice([lambda: [[v()], {}], lambda: [[v(), v()], {}], lambda: [[v()], {"w": v()}], lambda: [[], {"w": v(), "v": v()}]])()
    kwx = rng.random() < 0.2 and sig not in ("xs", "ak", "pos")
    a, k = ([], {"x": cid}) if kwx else ([cid], {})

    def opt(name, p=0.6, kwonly=False):
        if rng.random() < p:
            if kwonly or kwx or k or rng.random() < 0.5:
                k[name] = v()
            else:
                a.append(v())
    if sig == "xy":
        opt("y", 1)
    elif sig == "xd":
        opt("y")
    elif sig == "xk":
        opt("k", kwonly=True)
    elif sig == "xs":
        a += [v() for _ in range(rng.randint(0, 2))]
    elif sig == "ak":
        a += [v() for _ in range(rng.randint(0, 2))]
        k.update({n: v() for n in rng.sample(["p", "args", "kwargs", "agent"], rng.randint(0, 2))})
    elif sig == "kw":
        k.update({n: v() for n in rng.sample(["p", "q", "agent", "func", "name"], rng.randint(0, 2))})
    elif sig == "xdd":
        opt("y")
        opt("z")
    elif sig == "many":
        for i in range(1, 8):
            opt(f"p{i}", 0.8, kwonly=bool(k) or len(a) < i)
    elif sig == "xa":
        opt("agent")
        opt("args", kwonly="agent" not in k and len(a) < 2)
    elif sig == "pos":
        a.append(v())
        opt("z")
    return [a, k]


def bind(sig, args, kw):
    """Own binder: what each parameter of the driver is in a call."""
    names = {"none": [], "x": ["x"], "xy": ["x", "y"], "xd": ["x", "y"], "xk": ["x"], "xs": ["x"], "kw": ["x"], "ak": ["x"], "xdd": ["x", "y", "z"],
             "pos": ["x", "y", "z"], "v": ["v"], "vw": ["v", "w"], "xa": ["x", "agent", "args"],
             "many": ["x"] + [f"p{i}" for i in range(1, 8)]}[sig]
    defaults = {"xd": {"y": 7}, "xk": {"k": 3}, "xdd": {"y": None, "z": 0}, "pos": {"z": 5}, "vw": {"w": 0}, "xa": {"agent": 4, "args": ()},
                "many": {f"p{i}": i for i in range(1, 8)}}.get(sig, {})
    d = dict(defaults)
    d.update(zip(names, args))
    rest = {k: v for k, v in kw.items() if k in names or k in defaults}
    d.update(rest)
    if sig == "xs":
        d["rest"] = tuple(args[1:])
    if sig == "ak":
        d["args"] = tuple(args[1:])
        d["kwargs"] = {k: v for k, v in kw.items() if k not in names}
    if sig == "kw":
        d["extra"] = {k: v for k, v in kw.items() if k not in names}
    return d


def gen_call(rng, agents, cid, h, lat=(0, 0, 1, 1, 2, 3)):
    i = rng.choice([i for i, a in enumerate(agents) if a["drivers"]])
    j = rng.randrange(len(agents[i]["drivers"]))
    a, k = gen_args(rng, agents[i]["drivers"][j]["sig"], cid)
    return {"at": rng.randint(0, h), "a": i, "d": j, "args": a, "kw": k, "lat": rng.choice(lat), "res": rng.choice([None, cid, cid, 0, "v"]),
            "pre": rng.choice([0, 0, 0, 1, 4]) if rng.random() < 0.995 else rng.choice([40, 300])}


def kept(v):
    """A received payload as it was when it was received."""
    if isinstance(v, dict):
        return dict(v)
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], dict):
        return (v[0], dict(v[1]))
    return v


def same(a, b):
    """Equal, and of the same types all the way down."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


# ---------------------------------------------------------------------------------------------------
# execution
# ---------------------------------------------------------------------------------------------------

def validate(case):
    """Reject structurally broken (over-shrunk) specs."""
    try:
        ags = case["agents"]
        assert len({a["name"] for a in ags}) == len(ags) > 0
        for a in ags:
            for k in ("drivers", "monitors"):
                assert len({x["name"] for x in a[k]}) == len(a[k])
        for m in case["models"]:
            for t in m["targets"]:
                for i, k, j in t["methods"]:
                    assert ags[i][k][j] and k == ("drivers" if t["t"] == "driver" else "monitors" if t["t"] == "monitor" else k)
                assert all(ags[i] for i in t["agents"])
                if t["t"] == "agent":
                    assert (t["style"] == "methods" or t["agents"]) and (t["style"] not in ("methods", "both") or t["methods"])
                else:
                    assert len(t["methods"]) == 1 and t["agents"] == [t["methods"][0][0]]
            pairs = [tuple(t["methods"][0]) for t in m["targets"] if t["t"] != "agent"]
            assert len(set(pairs)) == len(pairs)
            if m["kind"] == "mixed":
                both = [[drivers_of(t, ags) for t in m["targets"] if t["t"] != "monitor" and t["port"] == p] for p in (True, False)]
                assert not any(a & b for a in both[0] for b in both[1])
            names = [attr_of(t, ags, n) for n, t in enumerate(m["targets"])]
            assert len(set(names)) == len(names)
        for cid, c in enumerate(case.get("calls", [])):
            sig = ags[c["a"]]["drivers"][c["d"]]["sig"]
            if sig not in UNNAMED:
                assert (c["args"][0] if c["args"] else c["kw"].get("x")) == cid
            eval(f"lambda {PARAMS[sig]}: 0")(*c["args"], **c["kw"])
    except Exception:
        raise InvalidCase()


CID = contextvars.ContextVar("call id")  # identifies calls without arguments


class Bench:
    def __init__(self, sim, case, hook_result=None, n_env=1):
        self.sim, self.case = sim, case
        self.agents, self.models_spec, self.calls = case["agents"], case["models"], case.get("calls", [])
        validate(case)
        self.hist = []
        self.consts = {}
        self.dut = None
        self.keep = []
        self.n_env = n_env
        self.hook_result = hook_result or (lambda m, t, cid, path: None)
        self.listeners = []
        self.over = False
        self.ports = []
        self.envs = []
        self.attached = {}
        self.models = []

    def ev(self, kind, **kw):
        kw.update(k=kind, c=self.dut.cycle, seq=len(self.hist))
        self.hist.append(kw)
        self.sim.log(kind, kw["c"], {a: b for a, b in kw.items() if a not in ("k", "c", "seq", "obj")})
        for f in self.listeners:
            f(kw)
        return kw

    def of(self, kind, **kw):
        return [e for e in self.hist if e["k"] == kind and all(e[a] == b for a, b in kw.items())]

    def path(self, i, k, j):
        a = self.agents[i]
        return f"{a['name']}.{a[k][j]['name']}"

    # ---- classes -----------------------------------------------------------------------------------
    def agent_class(self, i):
        bench, spec = self, self.agents[i]
        ns = {}

        async def body(agent, j, sig, loc):
            path = bench.path(agent.bench_i, "drivers", j)
            cid = loc.get("x") if sig not in UNNAMED else CID.get(None)
            bench.ev("body_start", cid=cid, path=path, env=agent.env_idx)
            plan = bench.calls[cid] if isinstance(cid, int) and not isinstance(cid, bool) and 0 <= cid < len(bench.calls) else {"lat": 1, "res": None}
            await bench.body_hook(agent, cid, plan)
            for _ in range(plan["lat"]):
                await agent.bundle.step()
            bench.ev("body_end", cid=cid, path=path, env=agent.env_idx, args=loc)
            return plan["res"]

        async def mon_body(agent, j):
            m = bench.agents[agent.bench_i]["monitors"][j]
            path, n = bench.path(agent.bench_i, "monitors", j), agent.mon_n.setdefault(m["name"], {"n": 0})
            bench.ev("mon_start", path=path, env=agent.env_idx)
            n["n"] += 1
            await yields(m["yield"])
            if m["wait"]:
                await agent.bundle.step(m["wait"])
            v = bench.mon_value(agent, path, m, n["n"])
            bench.ev("mon_end", path=path, env=agent.env_idx, v=v, att=bench.attached_to(agent.env_idx))
            return v

        for j, d in enumerate(spec["drivers"]):
            g = {"__body": body}
            me = d.get("me", "self")
            src = (f"async def {d['name']}({', '.join([me] + ([PARAMS[d['sig']]] if PARAMS[d['sig']] else []))}):\n"
                   f"    return await __body({me}, {j}, {d['sig']!r}, {{k: v for k, v in locals().items() if k != {me!r}}})\n")
            exec(src, g)
            ns[d["name"]] = driver_method()(g[d["name"]])
        for j, m in enumerate(spec["monitors"]):
            def mk(j=j, m=m):
                async def mon(self):
                    return await mon_body(self, j)
                mon.__name__ = mon.__qualname__ = m["name"]
                return mon
            ns[m["name"]] = monitor_method()(mk())
        base = Agent
        for d in spec["drivers"] + spec["monitors"]:
            if d.get("sup"):
                base = self.overridden(base, d["name"], ns)
        return derive(f"Agent{i}", base, ns, spec.get("inh", 0))

    def overridden(self, base, name, ns):
        """Move the member to a base class, and let the one that overrides it call it."""
        member = ns[name]
        base = type("Sup" + name, (base,), {name: member})
        par = inspect.Parameter
        parts = {par.POSITIONAL_ONLY: "{0}", par.POSITIONAL_OR_KEYWORD: "{0}", par.VAR_POSITIONAL: "*{0}", par.KEYWORD_ONLY: "{0}={0}", par.VAR_KEYWORD: "**{0}"}
        sig = inspect.signature(member.__original_func__)
        g = {"__base": base}
        exec(f"async def {name}{sig}:\n    return await __base.{name}({', '.join(parts[p.kind].format(p.name) for p in sig.parameters.values())})\n", g)
        ns[name] = (driver_method if hasattr(member, "__is_driver_decorated__") else monitor_method)()(g[name])
        return base

    async def body_hook(self, agent, cid, plan):
        pass

    def mon_value(self, agent, path, m, n):
        if n % m["every"]:
            return None
        if m["val"] > 4:  # the very same object every time
            return self.consts.setdefault((agent.env_idx, path), [path] if m["val"] == 5 else {path})
        return [(path, self.dut.cycle), 0, "", False, [self.dut.cycle]][m["val"]]

    def model_class(self, mi):
        bench, spec, ns, late, made = self, self.models_spec[mi], {}, [], {}

        def decorator(hook, **kw):
            """Hooks declared alike share the decorator in some models."""
            if not spec.get("deco"):
                return hook(**kw)
            return made.setdefault(repr((hook.__name__, kw)), hook(**kw))
        for ti, t in enumerate(spec["targets"]):
            attr = attr_of(t, self.agents, ti)
            is_port = self.is_port(mi, t)
            names = [self.agents[i]["name"] for i in t["agents"]]
            paths = [self.path(*m) for m in t["methods"]]
            if t["t"] == "agent":
                kw = {"name": {"agent_name": names[0]} if names else {}, "attr": {}, "agents": {"agents": names}, "methods": {"methods": paths},
                      "both": {"agent_name": names[0] if names else "", "methods": paths}}[t["style"]]
            else:
                i, k, j = t["methods"][0]
                kind = t["t"]
                kw = {"path": {f"{kind}_path": paths[0]}, "pair": {"agent_name": names[0], f"{kind}_name": self.agents[i][k][j]["name"]},
                      "agent": {"agent_name": names[0]}, "attr": {}}[t["style"]]
            if is_port:
                late.append((attr, ti, t, ({"agent": AgentPort, "driver": DriverPort, "monitor": MonitorPort}[t["t"]], dict(kw, maxsize=t.get("cap", -1)))))
                continue
            if t["t"] == "agent":
                def mk(ti=ti, t=t):
                    def hook(self, path, payload):
                        return bench.on_hook(self, mi, ti, t, path, payload)
                    return hook
                f = mk()
                f.__name__ = attr
                ns[attr] = decorator(agent_hook, **kw, priority=t["prio"], sche_order=t["order"])(f)
            elif t["t"] == "monitor":
                def mk(ti=ti, t=t, p=paths[0]):
                    def hook(self, v):
                        return bench.on_hook(self, mi, ti, t, p, v)
                    return hook
                f = mk()
                f.__name__ = attr
                ns[attr] = decorator(monitor_hook, **kw, priority=t["prio"])(f)
            else:
                i, k, j = t["methods"][0]
                p = PARAMS[self.agents[i][k][j]["sig"]]
                g = {"__on": lambda self, loc, ti=ti, t=t, q=paths[0]: bench.on_hook(self, mi, ti, t, q, loc)}
                exec(f"def {attr}({', '.join(['self'] + ([p] if p else []))}):\n"
                     f"    return __on(self, {{k: v for k, v in locals().items() if k != 'self'}})\n", g)
                ns[attr] = decorator(driver_hook, **kw, priority=t["prio"], sche_order=t["order"])(g[attr])
        if spec.get("bad"):
            self.add_bad(spec["bad"], ns, late)

        def init(self, inst):
            Model.__init__(self)
            self.inst = inst
            for attr, ti, t, (cls, kw) in late:
                port = cls(**kw)
                setattr(self, attr, port)
                if ti is None:
                    continue
                bench.ports.append({"m": mi, "inst": inst, "ti": ti, "t": t, "port": port})
        ns["__init__"] = init
        return derive(f"M{mi}", Model, ns, spec.get("inh", 0))

    def add_bad(self, bad, ns, late):
        """A hook or port that names something no environment of this case has (or that is not what it should be)."""
        kind, port, where = bad
        ag = self.agents[0]
        drv = [d["name"] for d in ag["drivers"]]
        mon = [m["name"] for m in ag["monitors"]]
        if kind == "driver":
            path = {"noagent": "nobody.d0", "nomethod": f"{ag['name']}.nope", "other": f"{ag['name']}.{(mon or ['nope'])[0]}"}[where]
            kw = {"driver_path": path}
        elif kind == "monitor":
            path = {"noagent": "nobody.m0", "nomethod": f"{ag['name']}.nope", "other": f"{ag['name']}.{(drv or ['nope'])[0]}"}[where]
            kw = {"monitor_path": path}
        else:
            kw = {"noagent": {"agent_name": "nobody"}, "nomethod": {"methods": [f"{ag['name']}.{n}" for n in (drv + mon)[:1]] + [f"{ag['name']}.nope"]},
                  "other": {"agents": [ag["name"], "first"]}, "list": {"agents": [ag["name"], "nobody"]}, "attr": {"agent_name": "first"},
                  "name": {}}[where]
        if port:
            late.append(("zz_bad", None, None, ({"agent": AgentPort, "driver": DriverPort, "monitor": MonitorPort}[kind], kw)))
        else:
            def hook(self, *a, **k):
                raise Violation("rejected-model-called", f"a hook of a rejected model was called with {a}")
            hook.__name__ = "zz_bad"
            ns["zz_bad"] = {"agent": agent_hook, "driver": driver_hook, "monitor": monitor_hook}[kind](**kw)(hook)

    def on_hook(self, model, mi, ti, t, path, payload):
        cid = None
        args = payload
        if t["t"] == "driver" or (t["t"] == "agent" and isinstance(payload, dict) and "x" in payload):
            cid = payload.get("x")
        e = self.ev("hook", m=mi, inst=model.inst, ti=ti, path=path, v=kept(args), cid=cid, upcoming=sorted(getattr(self, "upcoming", ())))
        r = self.hook_result(mi, ti, cid, path)
        e["ret"] = r
        self.use_up(t, payload)
        return r

    def use_up(self, t, payload):
        """A model may do what it likes with the dictionary it received."""
        d = payload[1] if isinstance(payload, tuple) and len(payload) == 2 else payload
        if isinstance(d, dict) and t["t"] != "monitor" and t.get("uses") and "a" not in d:
            d.pop("x", None) if t["uses"] == 1 else d.update(x=-1, y="changed", zz=1)

    # ---- construction ------------------------------------------------------------------------------
    def make_dut(self):
        dut = self.dut = SimDut(self.sim, ["io_a", "io_b"])
        start_clock(dut)
        bundle = type("IO", (Bundle,), {"a": Signal(), "b": Signal()}).from_prefix("io_").bind(dut)
        self.bundle = bundle
        return dut

    def make_env(self, e=0, only=None):
        bench = self
        if not hasattr(self, "classes"):
            self.classes = []
            for i, a in enumerate(self.agents):
                o = a.get("cls", i)
                shared = o < i and all([{k: x[k] for k in x if k in ("name", "sig")} for x in a[kind]] ==
                                       [{k: x[k] for k in x if k in ("name", "sig")} for x in self.agents[o][kind]] for kind in ("drivers", "monitors"))
                self.classes.append(self.classes[o] if shared else self.agent_class(i))
        inherited = self.agents[0].get("env_inh", 0)

        def add(env, e, only, idx):
            for i in idx:
                if only is not None and i not in only:
                    continue
                if bench.agents[i].get("by_step"):
                    # the deprecated form: only the step function is given
                    ag = bench.classes[i](bench.bundle.step)
                    ag.bundle = bench.bundle
                else:
                    ag = bench.classes[i](bench.bundle)
                ag.env_idx, ag.mon_n, ag.bench_i = e, {}, i
                setattr(env, bench.agents[i]["name"], ag)

        class BaseEnv(Env):
            def __init__(self, e, only):
                super().__init__()
                add(self, e, only, range(1, len(bench.agents), 2) if inherited else [])

        class BenchEnv(BaseEnv if inherited else Env):
            def __init__(self, e, only):
                super().__init__(*([e, only] if inherited else []))
                add(self, e, only, range(0, len(bench.agents), 2) if inherited else range(len(bench.agents)))
                self.first = bench.bundle
        # usually the environments of a run are instances of one class (with different agents)
        if not self.case.get("same_env_class") or not hasattr(self, "env_class"):
            self.env_class = BenchEnv
        env = self.env_class(e, only)
        self.envs.append(env)
        return env

    def make_model(self, mi, inst=0):
        if not hasattr(self, "mclasses"):
            self.mclasses = {}
        if mi not in self.mclasses:
            self.mclasses[mi] = self.model_class(mi)
        m = self.mclasses[mi](inst)
        self.models.append(m)
        return m

    def consume(self, h, env=0):
        async def consumer():
            while True:
                v = await h["port"]()
                self.ev("port", m=h["m"], inst=h["inst"], ti=h["ti"], v=kept(v), live=True)
                self.use_up(h["t"], v)
        t = create_task(consumer())
        self.keep.append(t)

    def drain(self):
        for h in self.ports:
            while h["port"].qsize():
                v = h["port"].get_nowait()
                self.ev("port", m=h["m"], inst=h["inst"], ti=h["ti"], v=v, live=False)

    # ---- calls -------------------------------------------------------------------------------------
    def agent(self, call, e=0):
        return getattr(self.envs[e], self.agents[call["a"]]["name"])

    def coro(self, cid, e=0):
        call = self.calls[cid]
        d = self.agents[call["a"]]["drivers"][call["d"]]
        return getattr(self.agent(call, e), d["name"])(*call["args"], **call["kw"])

    def issue(self, cid, e=0, **kw):
        c = self.calls[cid]
        CID.set(cid)
        return self.ev("issue", cid=cid, path=self.path(c["a"], "drivers", c["d"]), env=e, att=self.attached_to(e), **kw)

    def attached_to(self, e):
        return [k for k, v in self.attached.items() if v == e]

    def attach(self, model, mi, e=0):
        self.envs[e].attach(model)
        self.attached[(mi, model.inst)] = e
        self.ev("attach", m=mi, inst=model.inst, env=e)

    async def call(self, cid, e=0, **kw):
        outer = CID.get(None)
        self.issue(cid, e, **kw)
        r = await self.coro(cid, e)
        CID.set(outer)
        self.ev("ret", cid=cid, v=r)
        return r

    # ---- expectations ------------------------------------------------------------------------------
    def matches(self, t, i, k, j):
        """Does target t of a model match method j of kind k of agent i?  (From the spec, not from the code.)"""
        if t["t"] == "driver":
            return [i, k, j] in t["methods"] and k == "drivers"
        if t["t"] == "monitor":
            return [i, k, j] in t["methods"] and k == "monitors"
        return i in t["agents"] or [i, k, j] in t["methods"]

    def is_port(self, mi, t):
        kind = self.models_spec[mi]["kind"]
        return kind == "ports" if t["t"] != "monitor" and kind != "mixed" else t["port"]

    def payload(self, cid, t, port):
        c = self.calls[cid]
        i, j = c["a"], c["d"]
        sig = self.agents[i]["drivers"][j]["sig"]
        d = bind(sig, c["args"], c["kw"])
        if t["t"] == "agent":
            return (self.path(i, "drivers", j), d)
        if port and len(d) == 1:
            return next(iter(d.values()))
        return d
