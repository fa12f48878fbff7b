"""Generic structural minimiser for JSON cases: keeps the violation kind."""
import copy
import time

from .execcase import run_forked


def _paths(x, p=()):
    yield p, x
    if isinstance(x, dict):
        for k in sorted(x):
            yield from _paths(x[k], p + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _paths(v, p + (i,))


def _get(x, p):
    for k in p:
        x = x[k]
    return x


def _set(x, p, v):
    x = copy.deepcopy(x)
    if not p:
        return v
    y = x
    for k in p[:-1]:
        y = y[k]
    y[p[-1]] = v
    return x


def _candidates(case):
    items = [(p, v) for p, v in _paths(case)]
    # remove chunks of lists, big first
    lists = sorted(((p, v) for p, v in items if isinstance(v, list) and v), key=lambda t: -len(t[1]))
    for p, v in lists:
        n = len(v)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                yield _set(case, p, v[:i] + v[i + size:])
            size //= 2
    for p, v in items:
        if not p or p[-1] == "simseed":
            continue
        if isinstance(v, bool):
            if v:
                yield _set(case, p, False)
        elif isinstance(v, int):
            for c in (0, 1, v // 2, v - 1):
                if 0 <= c < v:
                    yield _set(case, p, c)
        elif isinstance(v, float) and p[0] == "sched":
            if v:
                yield _set(case, p, 0.0)


def size(case):
    return sum(1 for _ in _paths(case)) + sum(
        abs(v) if isinstance(v, (int, float)) and p[-1] != "simseed" else 0
        for p, v in _paths(case) if p and not isinstance(v, bool)
    ) * 1e-3


def shrink(prop, case, kind, wall=60.0, max_runs=1500):
    """Return (smallest case found, runs used)."""
    end = time.monotonic() + wall
    runs = 0
    best = case
    improved = True
    while improved:
        improved = False
        for cand in _candidates(best):
            if time.monotonic() > end or runs >= max_runs:
                return best, runs
            if size(cand) >= size(best):
                continue
            runs += 1
            res = run_forked(prop, cand, wall=10)
            if res["verdict"] == "violation" and res["kind"] == kind:
                best = cand
                improved = True
                break
    return best, runs
