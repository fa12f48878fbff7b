"""Run one case in a forked child, so that no case can see state left by another."""
import json
import os
import pickle
import re
import select
import signal
import sys
import time
import traceback

from .core import InvalidCase, Sim, SimBudget, SimDeadlock, Violation

WALL = float(os.environ.get("VERIF_CASE_WALL", "40"))


def _frames(exc):
    """Innermost toffee frame, used to classify an unexpected exception."""
    where = ""
    for f in traceback.extract_tb(exc.__traceback__):
        if "/toffee/" in f.filename:
            where = f"{os.path.basename(f.filename)}:{f.name}"
    return where


def run_here(prop, case, sim_cls=Sim):
    """Execute the case in this process and classify the outcome."""
    sim = sim_cls(case)
    sim.install()
    kind = msg = None
    verdict = "ok"
    try:
        prop.run(sim, case)
        if sim.first_escape is not None:
            raise sim.first_escape
    except Violation as v:
        verdict, kind, msg = "violation", v.kind, v.msg
    except SimDeadlock as e:
        verdict, kind, msg = "violation", "deadlock", str(e)
    except SimBudget as e:
        verdict, kind, msg = "violation", "no-progress", str(e)
    except InvalidCase as e:
        verdict, kind, msg = "invalid", "invalid-case", str(e)
    except (MemoryError, KeyboardInterrupt) as e:
        verdict, kind, msg = "harness", type(e).__name__, str(e)
    except BaseException as e:
        esc = sim.first_escape
        if isinstance(esc, Violation):
            verdict, kind, msg = "violation", esc.kind, esc.msg
        elif isinstance(esc, SimDeadlock):
            verdict, kind, msg = "violation", "deadlock", str(esc)
        elif isinstance(esc, SimBudget):
            verdict, kind, msg = "violation", "no-progress", str(esc)
        else:
            verdict = "violation"
            last = traceback.extract_tb(e.__traceback__)[-1:]
            kind = f"unexpected-exception:{type(e).__name__}"
            if last and "/verif/" in last[0].filename + "/" and not isinstance(e, AssertionError):
                kind += "@harness"
            msg = f"{e!r} in {_frames(e) or 'harness'}\n" + "".join(
                traceback.format_exception(type(e), e, e.__traceback__, limit=-6)
            )
            if sim.asyncio_log:
                m = re.search(r"\[(\w+)\(.*\]$", sim.asyncio_log[0][1], re.S)
                kind += f":{m.group(1)}" if m else ""
                msg += f"asyncio reported: {sim.asyncio_log[-3:]}"
    return {
        "verdict": verdict,
        "kind": kind,
        "msg": msg,
        "digest": sim.digest(),
        "faults": sim.faults,
        "probes": sim.probes,
        "sig": sorted(sim.sig),
        "rounds": sim.rounds,
        "steps": sim.steps,
        "vtime": sim.vt_base,
        "events": len(sim.events),
        "trace": [repr(e) for e in sim.events[-60:]] if verdict == "violation" else None,
        "nontrivial": bool(getattr(prop, "nontrivial", lambda s, c: True)(sim, case))
        if verdict == "ok"
        else True,
    }


def run_forked(prop, case, wall=None):
    """Execute the case in a forked child; a child that does not answer is a hang."""
    wall = wall or WALL
    if hasattr(prop, "prepare"):
        prop.prepare(case)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
            res = run_here(prop, case)
            data = pickle.dumps(res)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + wall
    hung = False
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                hung = True
                break
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                hung = True
                break
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    finally:
        if hung:
            os.kill(pid, signal.SIGKILL)
        os.close(r)
        _, st = os.waitpid(pid, 0)
    if hung:
        if hasattr(prop, "prepare"):
            from . import twin
            twin.forget()
        return _flat("violation", "hang", f"no answer within {wall:.0f} s of wall time")
    try:
        return pickle.loads(b"".join(chunks))
    except Exception:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL:
            return _flat("harness", "killed", "child was killed (memory?)")
        if os.WIFSIGNALED(st):
            return _flat("violation", "crash", f"process died from signal {os.WTERMSIG(st)}")
        return _flat("harness", "no-result", f"child status {st}")


def _flat(verdict, kind, msg):
    return {
        "verdict": verdict, "kind": kind, "msg": msg, "digest": "", "faults": {}, "probes": {},
        "sig": [], "rounds": 0, "steps": 0, "vtime": 0.0, "events": 0, "trace": None,
        "nontrivial": True,
    }


def run_stable(prop, case):
    """run_forked, with hangs and harness errors retried once (a loaded machine must not decide)."""
    res = run_forked(prop, case)
    if res["kind"] == "hang":
        res = run_forked(prop, case, wall=2 * WALL)
    elif res["verdict"] == "harness":
        res = run_forked(prop, case)
    return res
