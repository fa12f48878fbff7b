"""Interpreters with a chosen string hash seed, which execute cases on request.

Used by properties that compare executions of one program in differently conditioned processes.  A twin is
started per (process, hash seed), without address space randomisation where the kernel allows that, and serves
one request after another, each in a child forked before the request is read: the memory layout a case meets
is a function of the hash seed and the case alone.
"""
import ctypes
import gc
import json
import os
import pickle
import random
import re
import select
import signal
import struct
import subprocess
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT = 30.0
_twins = {}


class _Filler:
    pass


def ballast(n, seed):
    """Objects of many sizes, some freed again: what is created later lies elsewhere in memory."""
    rng = random.Random(f"ballast:{seed}")
    make = [_Filler, dict, lambda: {1: 2}, lambda: [None] * rng.randint(0, 9), lambda: tuple(range(rng.randint(1, 6))), object,
            lambda: (lambda: 0), lambda: "x" * rng.randint(1, 200), set, lambda: type("T", (), {})]
    keep = [rng.choice(make)() for _ in range(n)]
    rng.shuffle(keep)
    return keep[n // 3:]


def _plain(s):
    return re.sub(r"\bat 0x[0-9a-f]+", "at 0x", s)


def observe(prop, case, variant):
    """Execute the case in this process under the variant; everything a user can see of it."""
    from . import core, execcase

    case = json.loads(json.dumps(case))
    case["sched"] = variant["sched"]
    seen = {}

    class TwinSim(core.Sim):
        def __init__(self, case):
            super().__init__(case)
            seen["sim"] = self
            self._hash_rng = random.Random(f"hash:{variant['taskhash']}")

    keep = ballast(*variant["ballast"])
    res = execcase.run_here(prop, case, TwinSim)
    del keep
    sim = seen["sim"]
    return {"verdict": res["verdict"], "kind": res["kind"], "msg": (res["msg"] or "")[:600], "events": [_plain(repr(e)) for e in sim.events],
            "log": [(lv, _plain(m)) for lv, m in sim.toffee_log], "rounds": sim.rounds, "steps": sim.steps, "vtime": sim.vt_base, "faults": sim.faults,
            "probes": sim.probes}


_libc = ctypes.CDLL(None)


def _fixed_addresses():
    _libc.personality(0x0040000)  # ADDR_NO_RANDOMIZE; where it is refused, layouts vary from run to run


def start(hashseed):
    """The twin of this process with the given hash seed (call before forking the case)."""
    key = (os.getpid(), hashseed)
    if key not in _twins:
        env = {k: os.environ[k] for k in ("PATH", "PYTHONPATH", "VERIF_REPO", "VERIF_DEBUG", "PYTHONPYCACHEPREFIX", "PYTHONDONTWRITEBYTECODE") if k in os.environ}
        env["PYTHONHASHSEED"] = str(hashseed)
        p = subprocess.Popen([sys.executable, "-m", "sim.twin"], cwd=VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, preexec_fn=_fixed_addresses)
        _twins[key] = p
    return _twins[key]


def forget():
    """A request may have been left half-done: end the twins of this process."""
    for k in [k for k in _twins if k[0] == os.getpid()]:
        p = _twins.pop(k)
        p.kill()
        p.wait()


def start_of_parent(hashseed):
    return _twins[(os.getppid(), hashseed)]


def ask(p, propid, case, variant):
    rid = os.urandom(8)
    msg = pickle.dumps((rid, propid, case, variant))
    _write(p.stdin.fileno(), struct.pack("<I", len(msg)) + msg)
    while True:
        n = struct.unpack("<I", _read(p.stdout.fileno(), 4))[0]
        got, res = pickle.loads(_read(p.stdout.fileno(), n))
        if got is None or got == rid:
            return res


def _write(fd, data):
    while data:
        data = data[os.write(fd, data):]


def _read(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError("the twin ended")
        out += b
    return out


HANG = {"verdict": "harness", "kind": "hang", "msg": "", "events": [], "log": [], "rounds": 0, "steps": 0, "vtime": 0.0, "faults": {}, "probes": {}}


def child(i, o, alive):
    n = struct.unpack("<I", _read(i, 4))[0]
    rid, propid, case, variant = pickle.loads(_read(i, n))
    try:
        res = observe(LOADED[propid], case, variant)
    except BaseException:  # noqa: BLE001
        res = dict(HANG, kind="no-result", msg=traceback.format_exc()[-600:])
    _answer(o, (rid, res))


def _answer(o, msg):
    msg = pickle.dumps(msg)
    _write(o, struct.pack("<I", len(msg)) + msg)


LOADED = {}


def serve():
    from .runner import all_ids, load
    import toffee  # noqa: F401

    for pid in all_ids():
        LOADED[pid] = load(pid)
    i, o = os.dup(0), os.dup(1)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(null, 2)
    gc.collect()
    gc.freeze()
    warm = 5  # children that do nothing: every later fork meets the same free lists
    while True:
        if warm <= 0:
            select.select([i], [], [])
        dead, alive = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(dead)
                if warm <= 0:
                    child(i, o, alive)
            except EOFError:
                os._exit(7)
            finally:
                os._exit(0)
        os.close(alive)
        ready = select.select([dead], [], [], LIMIT)[0]
        os.close(dead)
        if not ready:
            os.kill(pid, signal.SIGKILL)
        if os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 7:
            return
        if not ready:
            _answer(o, (None, HANG))
        warm -= 1


if __name__ == "__main__":
    serve()
