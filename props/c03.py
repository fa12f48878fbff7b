"""C03: run life cycle and termination."""
import collections
import functools

from .common import *
from . import prog

ID = "C03"
QUICK, THOROUGH = 4000, 100000
RULE = ("a case is a random background population (the C02 programs, tasks with slow or spawning cleanup, components) plus an ending: "
        "a value, an exception at a random point, or a failing environment factory; tests are functions or coroutines, with or "
        "without factory and clock, through run(), main_coro under asyncio.run, under a Runner and awaited by a coroutine of the user; non-trivial when "
        "tasks were outstanding at the end")
STATE_MEASURE = "(ending, outstanding tasks at the end, closing DUT steps)"


class TestError(Exception):
    pass


Pair = collections.namedtuple("Pair", "env n")


# what an environment factory may return, given the world -> (return value, arguments the test must receive)
SHAPES = {
    "one": lambda w: (w, (w,)), "tuple": lambda w: ((w, 1), (w, 1)), "tuple1": lambda w: ((w,), (w,)), "tuple3": lambda w: ((1, w, None), (1, w, None)),
    "empty": lambda w: ((), ()), "none": lambda w: (None, (None,)), "list": lambda w: ([w, w], ([w, w],)), "list1": lambda w: ([w], ([w],)),
    "dict": lambda w: ({"env": w}, ({"env": w},)), "str": lambda w: ("ab", ("ab",)), "zero": lambda w: (0, (0,)), "emptylist": lambda w: ([], ([],)),
    "gen": lambda w: ((lambda g: (g, (g,)))(x for x in (w, w))), "nested": lambda w: (((w, 1),), ((w, 1),)), "set": lambda w: ({1, 2}, ({1, 2},)),
    "namedtuple": lambda w: (Pair(w, 1), (w, 1)),
}


def gen(rng, index):
    c = prog.gen_world(rng)
    c.update({
        "mode": rng.choice(MODES + ["outer"]),
        "clock": rng.random() < 0.85,
        "style": rng.choice(["env", "env", "func", "coro"]),
        "ending": rng.choice(["value", "value", "value", "raise", "raise", "envraise"]),
        "chain": rng.randint(0, 5), "chain_kind": rng.choice(["event", "queue", "spawn", "mixed"]),
        "cleanup": [[rng.randint(0, 3), rng.choice(["plain", "yield", "spawn", "set", "long", "sleep", "survivor", "longsleep"])] for _ in range(rng.randint(0, 4))],
        "comps": [rng.randint(0, 5) for _ in range(rng.randint(0, 2))],
        "precomp": rng.random() < 0.3,
        "shape": rng.choice(list(SHAPES)),
        "result": rng.choice(["object", "object", "none", "zero", "empty", "list", "false", "exc", "tuple", "exctype", "dict"]),
        "form": rng.choice(["func", "func", "lambda", "method", "partial", "callable"]),
    })
    return c


def nontrivial(sim, case):
    return sim.probes.get("outstanding_at_end", 0) > 0


def run(sim, case):
    if case["clock"]:
        prog.validate(case)
    token = {"object": object(), "none": None, "zero": 0, "empty": "", "list": [], "false": False, "exc": ValueError("result"), "tuple": (1, None),
             "exctype": KeyError, "dict": {}}[case.get("result", "object")]
    error = TestError("the test's own failure")
    st = {"cleanups": {}, "started": {}, "chain_done": [], "comp": {}, "keep": []}
    w = prog.World(sim, case, quiet_check=False)

    async def bg(i, waits, how):
        st["started"][i] = True
        seen = 0
        if how == "survivor":
            # a task that was cancelled before and went on regardless
            try:
                asyncio.current_task().cancel()
                await asyncio.sleep(0)
            except asyncio.CancelledError:
                sim.fault("cancel_task")
        try:
            for _ in range(waits):
                if case["clock"]:
                    await w.bundle.step()
                else:
                    await yields(2)
            await asyncio.Event().wait()
        except asyncio.CancelledError:
            seen += 1
            sim.probe("cancel_seen")
            raise
        finally:
            if how == "yield":
                await yields(3)
            elif how == "long":
                await yields(25)
            elif how == "longsleep":
                await asyncio.sleep(7)
            elif how == "sleep":
                await toffee.asynchronous.sleep(0.05)
                await asyncio.sleep(0.01)
            elif how == "spawn":
                create_task(yields(4))
            elif how == "set" and case["clock"]:
                w.events[0].set()
            st["cleanups"][i] = st["cleanups"].get(i, 0) + 1
            sim.log("cleanup", i, seen)

    def comp(ci):
        rec = st["comp"][ci] = {"made": w.dut.cycle if case["clock"] else None, "starts": []}

        class C(Component):
            async def main(self):
                rec["starts"].append(w.dut.cycle)
                sim.log("comp", ci, w.dut.cycle)
                while True:
                    await w.bundle.step()
        rec["obj"] = C()

    def setup():
        if case["clock"]:
            if case["precomp"]:
                w.dut = type("NoDut", (), {"cycle": 0})
                comp("pre")
            w.build()
        if case["ending"] == "envraise" and case["style"] == "env":
            st["raised"] = True
            raise error
        if case["style"] == "env":
            ret, st["args"] = SHAPES[case.get("shape", "one")](w)
            return ret
        return w

    async def body(*args):
        if case["style"] == "env":
            sim.check(len(args) == len(st["args"]) and all(a is b or a == b for a, b in zip(args, st["args"])), "wrong-arguments",
                      f"the factory returned a {case.get('shape')}; the test received {len(args)} arguments {args!r:.120}")
        for i, (waits, how) in enumerate(case["cleanup"]):
            st["keep"].append(create_task(bg(i, waits, how)))
            if (i + waits) % 2:
                st["keep"][-1].set_name(prog.NAMES[(case["chain"] + case["horizon"] * (i + 1)) % len(prog.NAMES)])
        if case["clock"]:
            dut = w.dut
            for t in range(case["horizon"]):
                for ci, at in enumerate(case["comps"]):
                    if at == t:
                        comp(ci)
                for pi, at in case["roots"]:
                    if at == t:
                        w.spawn(pi, 0)
                await ClockCycles(dut, 1)
        else:
            for pi in range(case["horizon"]):
                await toffee.asynchronous.sleep(0.01)
        # a chain of work triggered by the test's very last actions
        if case["ending"] != "raise":
            evs = [toffee.asynchronous.Event() for _ in range(case["chain"] + 1)]
            qs = [toffee.asynchronous.Queue() for _ in range(case["chain"] + 1)]

            async def link(i):
                k = case["chain_kind"]
                if k == "mixed":
                    k = ("event", "queue", "spawn")[i % 3]
                if k == "queue":
                    await qs[i].get()
                elif k == "event":
                    await evs[i].wait()
                else:
                    await qs[i].get()
                    await create_task(yields(1))
                st["chain_done"].append((i, w.dut.cycle if case["clock"] else 0))
                evs[i + 1].set()
                qs[i + 1].put_nowait(1)
            if case["clock"]:
                for i in range(case["chain"]):
                    st["keep"].append(create_task(link(i)))
                await ClockCycles(w.dut, 1)
                evs[0].set()
                qs[0].put_nowait(1)
        st["end"] = w.dut.cycle if case["clock"] else 0
        w.finished = True
        st["outstanding"] = len(asyncio.all_tasks()) - 1
        if st["outstanding"] > 1:
            sim.probe("outstanding_at_end")
        if case["ending"] == "raise":
            st["raised"] = True
            raise error
        return token

    def formed(f):
        """The test in one of the forms a callable may have."""
        class Holder:
            async def method(self, *args):
                return await f(*args)

            def __call__(self, *args):
                return f(*args)
        return {"func": f, "lambda": lambda *args: f(*args), "method": Holder().method, "partial": functools.partial(f),
                "callable": Holder()}[case.get("form", "func")]

    def returned():
        """The run has returned to the coroutine that awaited it: what the test left behind is over by now."""
        left = [t.get_name() for t in st["keep"] + [r["task"] for r in w.recs if r["started"] or r["born"] < st.get("end", 0)] if not t.done()]
        if case["clock"]:
            sim.check(not left, "task-survives-run", f"the run returned while tasks {left} of it were pending")
            sim.probe("returned_to_coroutine")
    sim.on_return = returned
    if case["style"] == "env":
        kind, val = sim.toffee_run(formed(body), setup, case["mode"])
    else:
        async def test():
            setup()
            return await body()
        kind, val = sim.toffee_run(test() if case["style"] == "coro" else formed(test), None, case["mode"])

    sim.log("outcome", kind, type(val).__name__)
    if st.get("raised"):
        sim.check(kind == "exc" and val is error, "wrong-outcome", f"the test raised its own exception; the run gave {kind} {val!r}")
    else:
        if kind == "exc":
            raise val
        sim.check(val is token, "wrong-outcome", f"the test returned its token; the run returned {val!r}")
    if "end" not in st:
        return
    final = w.dut.cycle if case["clock"] else 0
    sim.state(case["ending"], st["outstanding"], final - st["end"])
    sim.check(final - st["end"] <= 2, "closing-step", f"test ended in cycle {st['end']}, DUT was stepped to {final}")
    if not st.get("raised"):
        if case["clock"]:
            want = list(range(case["chain"]))
            got = [i for i, _ in st["chain_done"]]
            sim.check(got == want, "last-cycle-work-lost", f"work triggered in the last cycle: links {want}, completed {got}")
            sim.check(all(c == st["end"] for _, c in st["chain_done"]), "last-cycle-work-late",
                      f"test ended in cycle {st['end']}, last-cycle work ran in {st['chain_done']}")
            sim.check(final - st["end"] >= 1, "closing-step", "the closing DUT step did not happen")
    for i in st["started"]:
        sim.check(st["cleanups"].get(i) == 1, "cleanup", f"cleanup of outstanding task {i} ran {st['cleanups'].get(i, 0)} times")
    for r in w.recs:
        sim.check(r["task"].done(), "task-survives-run", "a task is still pending after the run returned")
        if r["started"]:
            sim.check(r["done_cycle"] is not None, "cleanup", "a started task never reached its cleanup")
    for ci, rec in st["comp"].items():
        s = rec["starts"]
        if rec["made"] is None:
            continue
        want = rec["made"] + 1
        sim.check(len(s) <= 1, "component-start", f"component main started {len(s)} times")
        if s:
            sim.check(s[0] == want, "component-start", f"component created in cycle {rec['made']} started in cycle {s[0]}")
        elif st["end"] >= want:
            sim.fail("component-start", f"component created in cycle {rec['made']} never started (test ended in {st['end']})")
    import gc
    gc.collect()
    sim.check((w.dut.cycle if case["clock"] else 0) == final, "step-after-run", "DUT stepped after the run returned")
