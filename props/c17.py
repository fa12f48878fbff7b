"""C17: coverage accounting is exact over any sampling history."""
import fnmatch
import json
import re
from collections import OrderedDict

import toffee.funcov as fc

from .common import *

ID = "C17"
QUICK, THOROUGH = 3000, 100000
RULE = ("a case is one or two coverage groups over pins of a running DUT, random points (conditions, callables, lists, once or not, some raising at certain "
        "values or cycles), sampled from the DUT's rising-edge callback or from tasks, while concurrent tasks add, delete, reset, clear, stop and resume; counts, "
        "flags and stop state are compared with an independent model after every operation; non-trivial when a bin was hit")
STATE_MEASURE = "(operation, effective, points, covered points, group covered, stopped)"
CONDS = ["Eq", "Gt", "Lt", "Ge", "Le", "Ne", "In", "NotIn", "IsInRange", "lambda", "mask", "some", "list"]


def gen_cond(rng, depth=1):
    k = rng.choice(CONDS if depth else CONDS[:-1])
    if k in ("In", "NotIn"):
        return [k, [rng.randint(0, 5) for _ in range(rng.randint(0, 3))]]
    if k == "IsInRange":
        a = rng.randint(0, 5)
        return [k, a, a + rng.randint(0, 3)]
    if k == "list":
        return [k, [gen_cond(rng, 0) for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 8]))]]
    return [k, rng.randint(0, 5)]


def gen_point(rng, n, fail_p):
    return {"name": f"p{n}", "pin": rng.choice(["io_a", "io_b"]), "bins": [[f"b{i}", gen_cond(rng), rng.randint(0, 5) if rng.random() < fail_p else None]
                                                                          for i in range(rng.choice([1, 1, 2, 2, 3, 3, rng.randint(4, 12)]))],
            "once": rng.choice([None, None, True, False]), "bare": rng.random() < 0.15, "target_fail": rng.randint(0, 9) if rng.random() < fail_p / 2 else None,
            "share": rng.random() < 0.3}


def gen(rng, index):
    h = rng.randint(3, 12) if rng.random() < 0.9 else rng.randint(13, 80)
    fail_p = rng.choice([0.0, 0.0, 0.1, 0.4]) if h < 13 else 0.0
    top = rng.choice([6, 6, 6, 1, (1 << 70)])
    groups, n = [], 0
    for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
        pts = []
        for _ in range(rng.choice([0, 1, 2, 3, 3, rng.randint(4, 9)])):
            pts.append(gen_point(rng, n, fail_p))
            n += 1
        groups.append({"points": pts, "disable": rng.random() < 0.7, "ris": rng.random() < 0.5})
    ops = []
    for _ in range(rng.randint(3, 25) if h < 13 else rng.randint(10, 90)):
        k = rng.choice(["sample"] * 5 + ["add", "del", "reset", "stop", "resume", "clear" if rng.random() < 0.3 else "sample", rng.choice(["mark", "scribble", "sample", "burst"])])
        o = [rng.randint(0, h), rng.randint(0, 3), k, rng.randrange(len(groups)), rng.randrange(max(1, n + 2))]
        if k == "add":
            o.append(gen_point(rng, n, fail_p))
            n += 1
        if k == "mark":
            o.append([rng.choice(["*", "b0", "b?", "b[01]", "anonymous", ["b0", "b1"]]), rng.choice(["fn_a", "fn_b", ["fn_a", "fn_c"], "callable"]), rng.random() < 0.5])
        if k == "burst":
            o.append(rng.choice([2, 10, 300]))
        ops.append(o)
    few = rng.random() < 0.4
    return {"horizon": h, "groups": groups, "ops": ops, "wave_a": [rng.randint(0, 2 if few else 6) for _ in range(h + 3)],
            "wave_b": [rng.choice([rng.randint(0, 6), rng.randint(0, top)]) for _ in range(h + 3)], "mode": rng.choice(MODES)}


def nontrivial(sim, case):
    return sim.probes.get("hit", 0) > 0


class BinError(Exception):
    pass


def marked(*_):
    """A test function that points are marked with."""


def bins_matching(pats, names):
    out = set()
    for p in [pats] if isinstance(pats, str) else pats:
        got = [p] if p in names else [x for x in names if (fnmatch.fnmatch(x, p) if "*" in p or "?" in p else re.match(p, x))]
        if not got:
            return None
        out |= set(got)
    return out


def holds(c, v):
    k = c[0]
    if k == "In":
        return v in c[1]
    if k == "NotIn":
        return v not in c[1]
    if k == "IsInRange":
        return c[1] <= v and v <= c[2]
    if k == "list":
        return all(holds(x, v) for x in c[1])
    return {"Eq": v == c[1], "Gt": v > c[1], "Lt": v < c[1], "Ge": v >= c[1], "Le": v <= c[1], "Ne": v != c[1], "lambda": v % 3 == c[1] % 3, "mask": v & (1 << c[1] % 3) != 0, "some": v > c[1]}[k]


def run(sim, case):
    st = {}

    def make_cond(c):
        k = c[0]
        if k == "list":
            return [make_cond(x) for x in c[1]]
        if k == "lambda":
            return lambda t: t.value % 3 == c[1] % 3
        if k == "mask":  # true or false, but no bool
            return lambda t: t.value & (1 << c[1] % 3)
        if k == "some":
            return lambda t: [t.value] if t.value > c[1] else None
        if k == "IsInRange":
            return fc.IsInRange(c[1], c[2])
        return getattr(fc, k)(c[1])

    class Target:
        """A watched pin whose read can fail in one cycle."""

        def __init__(self, pin, fail):
            self.pin, self.fail = pin, fail

        @property
        def value(self):
            if self.fail is not None and st["dut"].cycle == self.fail:
                sim.fault("target_read_error")
                raise BinError("target")
            return self.pin.value

    def bins_of(p):
        out = {}
        for name, c, bad in p["bins"]:
            b = make_cond(c)
            if bad is not None:
                def f(t, bad=bad, c=c):
                    v = t.value
                    if v == bad:
                        sim.fault("bin_error")
                        raise BinError(f"bin at {v}")
                    return holds(c, v)
                b = f
            out[name] = b
        return out

    class Ref:
        def __init__(self, g, spec):
            self.g, self.spec = g, spec
            self.reset()

        def reset(self):
            self.points = OrderedDict()
            self.stopped, self.auto, self.fresh = False, False, False
            self.calls = self.count = 0

        def covered(self, p):
            return all(n > 0 for n in p["n"].values())

        def complete(self):
            return bool(self.points) and all(self.covered(p) and p["once"] for p in self.points.values())

    def add(r, p):
        if p["name"] in r.points:
            return
        # Points may share their condition objects and their target
        key = (json.dumps(p["bins"]), p["pin"], p["target_fail"])
        if p.get("share") and key in st["shared"]:
            bins, target = st["shared"][key]
        else:
            bins, target = st["shared"][key] = bins_of(p), Target(getattr(st["dut"], p["pin"]), p["target_fail"])
        if p["bare"] and not isinstance(next(iter(bins.values())), list):
            ret = r.g.add_watch_point(target, next(iter(bins.values())), name=p["name"], once=p["once"])
            names = ["anonymous"]
            spec = [["anonymous"] + p["bins"][0][1:]]
        else:
            ret = r.g.add_cover_point(target, bins, name=p["name"], once=p["once"])
            names, spec = [b[0] for b in p["bins"]], p["bins"]
        if len(set(names)) != len(names):
            raise InvalidCase()
        sim.check(ret is r.g, "not-chained", f"adding a point returned {ret!r}")
        r.points[p["name"]] = {"n": {k: 0 for k in names}, "bins": spec, "once": bool(r.spec["disable"]) if p["once"] is None else p["once"], "pin": p["pin"],
                               "tf": p["target_fail"], "marks": {}}
        r.fresh, r.auto = True, False

    def sample(r):
        """One sample call on the real group, judged by the model."""
        cyc = st["dut"].cycle
        before = r.g.as_dict()
        must = not r.stopped and r.points and (not r.complete() or r.fresh)
        mustnot = r.stopped or (r.auto and not r.fresh)
        said = r.g.sample_stoped()
        err = None
        try:
            r.g.sample()
        except BinError as e:
            err = e
        d = r.g.as_dict()
        r.calls += 1
        eff = d["__sample_count__"] - before["__sample_count__"]
        sim.check(eff in (0, 1), "sample-count", f"one sample call changed the sample count by {eff}")
        sim.check(not (must and not eff), "sampling-stopped", f"cycle {cyc}: a sample had no effect although the group is not stopped and {show(r)}")
        sim.check(not (mustnot and eff), "sampling-continued", f"cycle {cyc}: a sample took effect although sampling is stopped (manually: {r.stopped})")
        sim.check(bool(said) != bool(eff), "stop-state", f"cycle {cyc}: sample_stoped() said {said}, the sample then had {'an' if eff else 'no'} effect")
        r.count += eff
        got = {p["name"]: {b["name"]: b["hints"] for b in p["bins"]} for p in d["points"]}
        raises = False
        for name, p in r.points.items():
            v = getattr(st["dut"], p["pin"]).value
            for bn, c, bad in p["bins"]:
                will = eff and ((p["tf"] == cyc and reads(c, bad)) or (bad is not None and v == bad))
                raises |= bool(will)
                hit = eff and not will and holds(c, v)
                lo, hi = p["n"][bn] + (1 if hit else 0), p["n"][bn] + (1 if hit else 0)
                if err is not None and hit:
                    lo -= 1  # what was evaluated before the failure is not specified
                now = got.get(name, {}).get(bn)
                sim.check(now is not None and lo <= now <= hi, "wrong-count", f"cycle {cyc}: bin {name}.{bn} {c} of value {v}: count {now}, expected "
                          f"{lo if lo == hi else (lo, hi)}; sample effective: {bool(eff)}, raised: {err!r}")
                if hit:
                    sim.probe("hit")
                p["n"][bn] = now
        sim.check(bool(err) == raises, "exception-lost", f"cycle {cyc}: a bin or target raised: {raises}, the caller got {err!r}")
        if eff:
            r.fresh = False
            r.auto = err is None and r.complete()
        verify(r, "sample", eff)

    def reads(c, bad):
        return bad is not None or c[0] != "list" or len(c[1]) > 0

    def show(r):
        return [(n, p["n"], "once" if p["once"] else "") for n, p in r.points.items()]

    def verify(r, what, eff=True):
        d = r.g.as_dict()
        sim.log(what, st["dut"].cycle, r.spec["i"], eff, show(r))
        got = [(p["name"], {b["name"]: b["hints"] for b in p["bins"]}, p["hinted"], p["once"]) for p in d["points"]]
        want = [(n, dict(p["n"]), r.covered(p), p["once"]) for n, p in r.points.items()]
        sim.check(got == want, "wrong-report", f"after {what} in cycle {st['dut'].cycle}: reported {got}, expected {want}")
        full = all(r.covered(p) for p in r.points.values())
        if r.points:
            sim.check(bool(d["hinted"]) == full and bool(r.g.is_all_covered()) == full, "wrong-group-flag", f"after {what}: group reported covered: "
                      f"{d['hinted']}, is_all_covered: {r.g.is_all_covered()}, points {want}")
        for n, p in r.points.items():
            sim.check(bool(r.g.is_point_covered(n)) == r.covered(p), "wrong-point-flag", f"after {what}: point {n}")
        sim.check((d["bin_num_total"], d["bin_num_hints"], d["point_num_total"], d["point_num_hints"], bool(d["has_once"])) ==
                  (sum(len(p["n"]) for p in r.points.values()), sum(1 for p in r.points.values() for x in p["n"].values() if x), len(r.points),
                   sum(1 for p in r.points.values() if r.covered(p)), any(p["once"] for p in r.points.values())), "wrong-totals", f"after {what}: {d}")
        sim.check((d["__sample_calln__"], d["__sample_count__"], bool(d["__stop_sample__"])) == (r.calls, r.count, r.stopped), "wrong-sample-counters",
                  f"after {what}: reported {d['__sample_calln__']}, {d['__sample_count__']}, {d['__stop_sample__']}, expected {r.calls}, {r.count}, {r.stopped}")
        marks = {p["name"]: {k: sorted(x) for k, x in p["functions"].items()} for p in d["points"]}
        want = {n: {k: sorted(x) for k, x in p["marks"].items()} for n, p in r.points.items()}
        sim.check(marks == want, "wrong-marks", f"after {what}: functions reported {marks}, expected {want}")
        sim.log("marked", [[n, list(x["functions"].items())] for n, x in zip(r.points, d["points"]) if x["functions"]])  # C23: in the same order
        sim.check(list(r.g.cover_points()) == list(r.points), "wrong-points", f"after {what}: {list(r.g.cover_points())}")
        sim.check(json.loads(str(r.g)) == json.loads(json.dumps(d)), "wrong-text", "text form differs from the report")
        sim.state(what, eff, len(r.points), sum(1 for p in r.points.values() if r.covered(p)), full, r.stopped)

    def op(o):
        _, _, k, gi, x = o[:5]
        if gi >= len(st["refs"]):
            raise InvalidCase()
        r = st["refs"][gi]
        if k == "sample":
            return sample(r)
        if k == "burst":
            for _ in range(o[5]):
                sample(r)
            return
        if k == "scribble":
            # The report belongs to whoever asked for it
            d = r.g.as_dict()
            for p in d["points"]:
                for b in p["bins"]:
                    b["hints"] = 77
                for f in p["functions"].values():
                    f.append("scribbled")
                p["hinted"] = True
                p["functions"]["no_such_bin"] = ["x"]
            del d["points"][:]
            return verify(r, k)
        if k == "mark":
            pats, fn, quiet = o[5]
            name = f"p{x}"
            p = r.points.get(name)
            bins = bins_matching(pats, list(p["n"])) if p else None
            fns = [marked if f == "callable" else f for f in ([fn] if isinstance(fn, str) else fn)]
            try:
                ret = r.g.mark_function(name, fns if isinstance(fn, list) else fns[0], pats, raise_error=not quiet)
                sim.check(bins is not None or (p is None and quiet), "mark-accepted", f"marking {pats} of {name} was accepted, points {list(r.points)}")
                sim.check(ret is r.g, "not-chained", f"marking returned {ret!r}")
            except (ValueError, AssertionError) as e:
                sim.check(bins is None and not (p is None and quiet), "mark-rejected", f"marking {pats} of {name}: {e!r}")
                return
            for b in bins or ():
                p["marks"].setdefault(b, set()).update(fc.get_func_full_name(f) if callable(f) else f for f in fns)
            return verify(r, k)
        if k == "add":
            add(r, o[5])
        elif k in ("del", "reset"):
            name = f"p{x}"
            try:
                ret = (r.g.del_point if k == "del" else r.g.reset_point)(name)
                sim.check(ret is r.g, "not-chained", f"{k} returned {ret!r}")
                sim.check(name in r.points, "unknown-point-accepted", f"{k} of {name}")
            except ValueError:
                sim.check(name not in r.points, "known-point-rejected", f"{k} of {name}")
                return
            if k == "del":
                del r.points[name]
                r.auto = False
            else:
                for b in r.points[name]["n"]:
                    r.points[name]["n"][b] = 0
                r.fresh, r.auto = True, False
        elif k == "stop":
            r.g.stop_sample()
            r.stopped = True
        elif k == "resume":
            r.g.resume_sample()
            r.stopped, r.auto, r.fresh = False, False, True
        elif k == "clear":
            r.g.clear()
            r.reset()
        verify(r, k)

    async def test():
        dut = st["dut"] = SimDut(sim, ["io_a", "io_b"])
        wa, wb = case["wave_a"] or [0], case["wave_b"] or [0]

        def drive(d):
            d.io_a._v, d.io_b._v = wa[d.cycle % len(wa)], wb[d.cycle % len(wb)]
        drive(dut)
        dut.on_step_func = drive
        start_clock(dut)
        st["refs"], st["shared"] = [], {}
        for i, gs in enumerate(case["groups"]):
            r = Ref(fc.CovGroup(f"G{i}", disable_sample_when_point_hinted=gs["disable"]), dict(gs, i=i))
            st["refs"].append(r)
            for p in gs["points"]:
                add(r, p)
            verify(r, "new")
            if gs["ris"]:
                dut.StepRis(lambda _, r=r: sample(r))

        async def actor(o):
            await ClockCycles(dut, o[0])
            await yields(o[1])
            op(o)
        tasks = [create_task(actor(o)) for o in case["ops"]]
        for t in tasks:
            await t
        for r in st["refs"]:
            verify(r, "end")
    kind, val = sim.toffee_run(test, None, case["mode"])
    if kind == "exc":
        raise val
