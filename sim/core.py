"""Deterministic simulator core.

One `Sim` object owns every source of nondeterminism of one simulated process:

* the event loop (`SimLoop`): virtual clock, timers, round budget, deadlock detection.  It is
  installed through asyncio's event-loop policy, the seam asyncio.run()/asyncio.Runner already use;
* the iteration order of sets of tasks (`SimTask.__hash__` is drawn from the seed), which decides in
  which order toffee cancels outstanding work;
* the process' clocks (time.time, monotonic, perf_counter, sleep): virtual, on a seeded speed of the machine;
* garbage collection: automatic collection is off, collections happen at seeded loop rounds;
* logging: records of the TOFFEE and asyncio loggers go to in-memory handlers.

Everything random is drawn from `sim.rng`, which is seeded from the case (never from the wall clock),
so a case (a JSON document) is one exactly repeatable execution.
"""
import asyncio
import inspect
import gc
import hashlib
import logging
import weakref
import random
import sys
import time
from asyncio import base_events, events


class Violation(BaseException):
    """The property is broken.  BaseException: code under test must not swallow it."""

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg = kind, msg


class InvalidCase(BaseException):
    """The (shrunk) case does not describe a meaningful scenario."""


class SimDeadlock(BaseException):
    pass


class SimBudget(BaseException):
    pass


class SimTask(asyncio.Task):
    def __init__(self, coro, *, loop=None, **kw):
        self._sim_hash = loop.sim.next_hash()
        super().__init__(coro, loop=loop, **kw)

    def __hash__(self):
        return self._sim_hash

    def __eq__(self, other):
        return self is other


class _Selector:
    """Stand-in for the OS selector: no file descriptors, waiting moves the virtual clock."""

    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        loop = self.loop
        if timeout is None:
            raise loop.sim.escape(SimDeadlock("nothing is runnable and no timer is pending"))
        if timeout > 0:
            loop.vt += timeout
            loop.sim.stats["idle_jumps"] += 1
        return []


_dead = {}


def reborn(cls, on=True):
    """A bare object of cls, at the address of one that was collected before if that can be had.

    The allocator may do that to any program; what code remembers about id(old object) is then wrong.
    """
    known = _dead.setdefault(cls, {})
    obj, held = object.__new__(cls), []
    if on and known:
        gone = {i for i, r in known.items() if r() is None}
        while gone and id(obj) not in gone and len(held) < 400:
            held.append(obj)
            obj = object.__new__(cls)
        if id(obj) not in gone:
            obj = held[0] if held else obj
    known[id(obj)] = weakref.ref(obj)
    return obj


class SimLoop(base_events.BaseEventLoop):
    def __init__(self, sim):
        super().__init__()
        self.sim = sim
        self.vt = sim.vt_base
        self.rounds = 0
        self._clock_resolution = 1e-9
        self._selector = _Selector(self)
        self.slow_callback_duration = 1e9
        self.set_task_factory(lambda loop, coro, **kw: SimTask(coro, loop=loop, **kw))

    def time(self):
        return self.vt

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def call_soon_threadsafe(self, callback, *args, context=None):
        return self.call_soon(callback, *args, context=context)

    def _run_once(self):
        self.sim.on_round(self)
        super()._run_once()

    def close(self):
        if not self.is_closed():
            self.sim.vt_base = self.vt
        super().close()


class SimPolicy(events.BaseDefaultEventLoopPolicy):
    """asyncio policy whose loops are simulated."""

    def __init__(self, sim):
        super().__init__()
        self.sim = sim

    def _loop_factory(self):
        if self.sim.reuse_memory:
            loop = reborn(SimLoop)
            loop.__init__(self.sim)
        else:
            loop = SimLoop(self.sim)
        self.sim.loops += 1
        return loop


class _Capture(logging.Handler):
    def __init__(self, sim, sink):
        super().__init__(level=0)
        self.sim, self.sink = sim, sink

    def emit(self, record):
        try:
            msg = record.getMessage()
        except Exception as e:  # a malformed record is still a record
            msg = f"<unformattable {type(e).__name__}>"
        if record.exc_info and record.exc_info[1] is not None:
            msg += f" [{record.exc_info[1]!r}]"
        self.sink.append((record.levelname, msg))


class Sim:
    #: budgets; far above what any generated case needs
    MAX_ROUNDS = 400_000
    MAX_ROUNDS_PER_STEP = 40_000
    MAX_STEPS = 20_000

    def __init__(self, case):
        sched = case.get("sched", {})
        self.case = case
        self.rng = random.Random(f"sim:{case.get('simseed', 0)}")
        self._hash_rng = random.Random(f"hash:{case.get('simseed', 0)}")
        self.dt = sched.get("dt", 0.001)
        self.jump_p = sched.get("jump_p", 0.0)
        self.gc_p = sched.get("gc_p", 0.0)
        self.stall_p = sched.get("stall_p", 0.0)
        self.vt_base = 0.0
        self.loops = 0
        self.reuse_memory = False   # new event loops take the place of collected ones
        self.rounds = 0
        self.rounds_at_step = 0
        self.steps = 0
        self.seq = 0
        self.events = []
        self.faults = {}
        self.probes = {}
        self.stats = {"idle_jumps": 0, "gc": 0}
        self.toffee_log = []
        self.asyncio_log = []
        self.first_escape = None
        self.sig = set()

    # --- recording -----------------------------------------------------------------------------
    def log(self, *what):
        self.events.append(what)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *what):
        """Record an abstract state for the distinct-interleavings measure."""
        self.sig.add(repr(what))

    def digest(self):
        return hashlib.sha1(repr(self.events).encode()).hexdigest()

    # --- failing -------------------------------------------------------------------------------
    def escape(self, exc):
        """Remember the first simulator-level exception: code under test may wrap or lose it."""
        if self.first_escape is None:
            self.first_escape = exc
        return exc

    def fail(self, kind, msg):
        raise self.escape(Violation(kind, msg))

    def check(self, cond, kind, msg):
        if not cond:
            self.fail(kind, msg() if callable(msg) else msg)

    # --- scheduling ----------------------------------------------------------------------------
    def next_hash(self):
        return self._hash_rng.getrandbits(60)

    def on_round(self, loop):
        loop.rounds += 1
        self.rounds += 1
        if self.first_escape is not None:
            raise self.first_escape
        if self.rounds > self.MAX_ROUNDS:
            raise self.escape(SimBudget("round budget of the run exhausted"))
        if self.rounds - self.rounds_at_step > self.MAX_ROUNDS_PER_STEP:
            raise self.escape(SimBudget("no DUT step within the round budget (livelock)"))
        if self.rounds - self.rounds_at_step > 500:
            loop.vt += 0.001  # polling takes time, even on the fastest simulated machine
        if self.dt:
            d = self.dt
            if self.jump_p and self.rng.random() < self.jump_p:
                d = self.rng.choice((0.1, 3.0, 120.0, 7200.0))
                self.fault("clock_jump")
            loop.vt += d
        if self.gc_p and self.rng.random() < self.gc_p:
            gc.collect()
            self.fault("gc_collect")

    def on_step(self, dut):
        self.steps += 1
        self.rounds_at_step = self.rounds
        if self.steps > self.MAX_STEPS:
            raise self.escape(SimBudget("DUT step budget exhausted"))
        if self.stall_p and self.rng.random() < self.stall_p:
            try:
                loop = asyncio.get_running_loop()
                loop.vt += self.rng.choice((0.5, 30.0))
                self.fault("dut_stall")
            except RuntimeError:
                pass

    def runnable_tasks(self):
        """Names of tasks that could run right now (asyncio would execute them without any new input)."""
        loop = asyncio.get_running_loop()
        out = []
        for h in list(loop._ready):
            if h._cancelled:
                continue
            t = getattr(h._callback, "__self__", None)
            if isinstance(t, asyncio.Task) and not t.done():
                out.append(t)
        return out

    # --- process setup -------------------------------------------------------------------------
    def install(self):
        gc.collect()
        gc.disable()
        random.seed(self.case.get("simseed", 0))
        self.install_clock()
        asyncio.set_event_loop_policy(SimPolicy(self))
        import toffee

        lg = toffee.get_logger()
        self.log_default = (lg.level, lg.handlers[:])  # as importing toffee leaves it
        toffee.setup_logging(log_level=logging.DEBUG, console_display=False)
        toffee.get_logger().addHandler(_Capture(self, self.toffee_log))
        al = logging.getLogger("asyncio")
        al.handlers[:] = [_Capture(self, self.asyncio_log)]
        al.propagate = False
        al.setLevel(0)
        sys.unraisablehook = lambda a: self.asyncio_log.append(("UNRAISABLE", repr(a.exc_value)))

    def install_clock(self):
        """The process' clocks: virtual as well, on a slow or fast machine (nothing in the simulation needs the real ones)."""
        rng = random.Random(f"wall:{self.case.get('simseed', 0)}")
        cost = rng.choice((0.0, 1e-6, 0.001, 0.03))
        wall = {"t": 1.7e9 + rng.random() * 1e6, "used": 0.0}

        def now():
            wall["used"] += cost
            try:
                vt = asyncio.get_running_loop().vt
            except (RuntimeError, AttributeError):
                vt = self.vt_base
            return wall["t"] + wall["used"] + vt

        def blocking_sleep(s):
            wall["used"] += s
        time.time = time.monotonic = time.perf_counter = time.process_time = now
        time.time_ns = time.monotonic_ns = time.perf_counter_ns = lambda: int(now() * 1e9)
        time.sleep = blocking_sleep

    def vtime(self):
        return self.vt_base

    # --- generic helpers -----------------------------------------------------------------------
    on_return = None  # called in mode "outer" when main_coro has returned, while its loop still runs

    def toffee_run(self, test, env_handle=None, mode="run"):
        """Drive the code under test through one of its public entry points.

        Returns ("ok", result) or ("exc", exception); simulator exceptions always propagate.
        """
        import toffee
        from toffee.asynchronous import main_coro

        try:
            if mode == "main_coro":  # what pytest integrations do
                ret = asyncio.run(main_coro(test, env_handle))
            elif mode == "outer":  # from the user's own coroutine
                async def outer():
                    ret = await main_coro(test, env_handle)
                    if self.on_return is not None:
                        self.on_return()
                    return ret
                ret = asyncio.run(outer())
            elif mode in ("fixture", "fixture3"):  # the environment is built in the loop before the test, as a fixture does
                async def fixture():
                    args = env_handle() if env_handle is not None else ()
                    for _ in range(3 if mode == "fixture3" else 0):
                        await asyncio.sleep(0)
                    if mode == "fixture3":  # something of the integration that takes some rounds of the loop
                        done, left = asyncio.get_running_loop().create_future(), [5]

                        def tick():
                            left[0] -= 1
                            if left[0]:
                                asyncio.get_running_loop().call_soon(tick)
                            else:
                                done.set_result(None)
                        tick()
                        await done
                    args = args if isinstance(args, tuple) else (args,)
                    return await main_coro(test if inspect.iscoroutine(test) else lambda: test(*args))
                ret = asyncio.run(fixture())
            elif mode == "runner":
                with asyncio.Runner() as r:
                    ret = r.run(main_coro(test, env_handle))
            elif env_handle is not None:
                ret = toffee.run(test, env_handle)
            else:
                ret = toffee.run(test)
        except BaseException as e:
            if self.first_escape is not None:
                raise self.first_escape from None
            if type(e) is KeyboardInterrupt or isinstance(e, MemoryError):
                raise
            return ("exc", e)
        if self.first_escape is not None:
            raise self.first_escape
        return ("ok", ret)
