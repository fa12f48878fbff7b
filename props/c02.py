"""C02: the DUT is never stepped while work of the current cycle is still runnable."""
from .common import *
from . import prog

ID = "C02"
QUICK, THOROUGH = 4000, 120000
RULE = ("a case is a random set of task programs over toffee Event/Queue/sleep/create_task/gather, asyncio.Lock/wait_for/"
        "timeout, joins, cancellations and driver calls, with model hooks that set events, fill queues, cancel and spawn in "
        "chosen cycles; at every DUT.Step the loop's ready queue must hold no task, and every effect (wake-up, item, join, "
        "cancellation) must be observed in the cycle of its cause; non-trivial when at least one cross-task wake-up happened")
STATE_MEASURE = "(kind of effect, cycle mod 4, number of other runnable tasks at that moment)"
ASSUMPTIONS = ["asyncio.gather/asyncio.wait/shield/TaskGroup resolve through future callbacks: they are inside the property for coroutines that end with a wait of "
               "toffee's Event, Queue or sleep and are not cancelled; toffee.gather and awaiting tasks are inside without restriction"]


def gen(rng, index):
    c = prog.gen_world(rng)
    c["mode"] = rng.choice(MODES)
    return c


def nontrivial(sim, case):
    return any(k in sim.probes for k in ("event_wakeup", "queue_get", "join", "gather")) or sim.faults.get("cancel_task", 0) > 0


def run(sim, case):
    prog.validate(case)
    w = prog.World(sim, case)
    kind, val = sim.toffee_run(lambda world: world.body(), w.build, case["mode"])
    if kind == "exc":
        raise val
    n = w.dut.cycle
    sim.check(n - w.end_cycle <= 2, "closing-step", f"test ended in cycle {w.end_cycle}, DUT at {n}")
