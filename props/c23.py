"""C23: runs are reproducible."""
from .common import *

from sim import twin

ID = "C23"
QUICK, THOROUGH = 2000, 80000
# the programs that are compared: those of the other properties, with and without timers of their own
UNTIMED = ["C04", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19"]
# (programs that show in which order outstanding tasks are cancelled at the end keep that order)
TIMED = ["C01", "C02", "C03", "C06", "C07", "C05"]
ENDINGS = ["C01", "C02", "C03"]
RULE = ("a case is a program of one of the other properties (" + ", ".join(UNTIMED + TIMED) + "), executed in two processes that differ in the string hash seed, the memory "
        "layout, the garbage collection, the iteration order of sets of tasks, and - where the program has no timers - the speed of the host and of the DUT; the complete "
        "histories, the log and the outcome must be equal; non-trivial when the history has at least five events")
STATE_MEASURE = "(program, its outcome, events of the history)"
ASSUMPTIONS = ["the order in which tasks still outstanding at the end of a run are cancelled is not specified (asyncio keeps them in a set)"]


def load(pid):
    import importlib
    return importlib.import_module(f"props.{pid.lower()}")


def gen_variant(rng, timed, sched):
    s = dict(sched)
    if not timed:
        s = {"dt": rng.choice([0.0, 1e-4, 0.01]), "jump_p": rng.choice([0.0, 0.05]), "stall_p": rng.choice([0.0, 0.3])}
        if not s["dt"]:
            s["jump_p"] = 0.0
    s["gc_p"] = rng.choice([0.0, 0.0, 0.05, 0.3])
    return {"sched": s, "ballast": [rng.choice([0, 1, 2, 3, 5, 17, 400]), rng.randint(0, 999)], "taskhash": rng.randint(0, 1 << 30)}


def gen(rng, index):
    timed = rng.random() < 0.25
    pid = rng.choice(TIMED if timed else UNTIMED)
    case = load(pid).gen(rng, index)
    case["simseed"] = rng.getrandbits(40)
    sched = {"dt": rng.choice([0.0, 1e-4, 0.001, 0.01])}
    a, b = gen_variant(rng, timed, sched), gen_variant(rng, timed, sched)
    if pid in ENDINGS:
        b["taskhash"] = a["taskhash"]
    return {"prop": pid, "inner": case, "a": a, "b": b, "hs": rng.randint(1, 2)}


def prepare(case):
    twin.start(0)
    twin.start(case["hs"])


def nontrivial(sim, case):
    return len(sim.events) >= 6


def run(sim, case):
    a = twin.ask(twin.start_of_parent(0), case["prop"], case["inner"], case["a"])
    b = twin.ask(twin.start_of_parent(case["hs"]), case["prop"], case["inner"], case["b"])
    for x in (a, b):
        if x["verdict"] == "invalid":
            raise InvalidCase()
        sim.rounds += x["rounds"]
        sim.steps += x["steps"]
        sim.vt_base += x["vtime"]
        for k, v in x["faults"].items():
            sim.fault(k, v)
    sim.fault("other_hash_seed")
    for k in ("gc_p", "dt", "stall_p", "jump_p"):
        if case["a"]["sched"].get(k) != case["b"]["sched"].get(k):
            sim.fault("other_" + k)
    if case["a"]["ballast"] != case["b"]["ballast"]:
        sim.fault("other_memory_layout")
    if "harness" in (a["verdict"], b["verdict"]):
        if (a["verdict"], a["kind"]) != (b["verdict"], b["kind"]) and "hang" in (a["kind"], b["kind"]):
            sim.fail("hang", f"{case['prop']}: {a['kind']} and {b['kind']}")
        raise InvalidCase()
    for e in a["events"]:
        sim.log(e)
    sim.state(case["prop"], a["verdict"], min(len(a["events"]), 40))
    what = {k: (case["a"][k], case["b"][k]) for k in ("sched", "ballast")}
    for name in ("events", "log"):
        for i, (x, y) in enumerate(zip(a[name] + [None] * len(b[name]), b[name] + [None] * len(a[name]))):
            if x != y:
                sim.fail("not-reproducible", f"a program of {case['prop']} executed twice under {what}: {name}[{i}] is {x}, the other time {y}")
    out = [(x["verdict"], x["kind"]) for x in (a, b)]
    sim.check(out[0] == out[1], "not-reproducible", f"a program of {case['prop']} executed twice under {what} ended {out[0]} {a['msg']!r} and {out[1]} {b['msg']!r}")
