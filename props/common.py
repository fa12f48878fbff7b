"""Pieces shared by the properties' workloads."""
import asyncio

import toffee
from toffee import *  # noqa: F401,F403
from toffee import Bundle, BundleList, Signal, SignalList
from toffee.asynchronous import Component  # noqa: F401

from sim.core import InvalidCase, Violation  # noqa: F401
from sim.dut import SimDut  # noqa: F401

MODES = ["run", "main_coro", "runner", "fixture", "fixture3"]


# ---------------------------------------------------------------------------------------------------
# bundle topologies
# ---------------------------------------------------------------------------------------------------

def gen_bundle_spec(rng, depth=2, must=True, odd=False):
    """A random bundle class.  At least one signal exists below it when `must`."""
    spec = {"sig": [], "slist": [], "sub": [], "blist": []}
    kinds = []
    if rng.random() < 0.55:
        kinds.append("sig")
    if rng.random() < 0.3:
        kinds.append("slist")
    if depth and rng.random() < 0.5:
        kinds.append("sub")
    if depth and rng.random() < 0.4:
        kinds.append("blist")
    if must and not kinds:
        kinds = [rng.choice(["sig", "slist"] + (["sub", "blist"] if depth else []))]
    if "sig" in kinds:
        spec["sig"] = [f"s{i}" for i in range(rng.randint(1, 3) if rng.random() < 0.97 else rng.randint(9, 40))]
        if odd and rng.random() < 0.1:
            spec["sig"][-1] = rng.choice(["event", "event", "xdata", "value", "clock", "valid"])
    if "slist" in kinds:
        spec["slist"] = [["v", rng.randint(1, 3) if rng.random() < 0.97 else rng.randint(9, 20)]]
        if rng.random() < 0.15:
            spec["slist"] += [[x, rng.randint(1, 3)] for x in ("p", "q")[:rng.randint(1, 2)]]
    if "sub" in kinds:
        n = rng.randint(1, 2) if rng.random() < 0.9 else rng.randint(3, 4)
        spec["sub"] = [[f"u{i}", gen_bundle_spec(rng, depth - 1, must=(i == 0), odd=odd)] for i in range(n)]
    if "blist" in kinds:
        spec["blist"] = [["w", gen_bundle_spec(rng, depth - 1, odd=odd), rng.randint(1, 3)]]
        if rng.random() < 0.15:
            spec["blist"] += [[x, gen_bundle_spec(rng, max(0, depth - 2), odd=odd), rng.randint(1, 2)] for x in ("r", "t")[:rng.randint(1, 2)]]
    return spec


def spec_pins(spec, prefix):
    out = [prefix + s for s in spec["sig"]]
    for name, n in spec["slist"]:
        out += [f"{prefix}{name}{i}" for i in range(n)]
    for name, sub in spec["sub"]:
        out += spec_pins(sub, f"{prefix}{name}_")
    for name, sub, n in spec["blist"]:
        for i in range(n):
            out += spec_pins(sub, f"{prefix}{name}{i}_")
    return out


def build_bundle_class(spec, cname="B"):
    ns = {s: Signal() for s in spec["sig"]}
    for name, n in spec["slist"]:
        ns[name] = SignalList(f"{name}#", n)
    for name, sub in spec["sub"]:
        ns[name] = build_bundle_class(sub, cname + name.upper()).from_prefix(f"{name}_")
    for name, sub, n in spec["blist"]:
        ns[name] = BundleList(build_bundle_class(sub, cname + name.upper()), f"{name}#_", n)
    return type(cname, (Bundle,), ns)


def bind_bundle(cls, how, prefix, dut):
    """Bind an instance of cls so that its relative signal names follow `prefix`."""
    if how == "regex":
        b = cls.from_regex(rf"^{prefix}(.*)$")
    elif how == "dict":
        spec_names = [p for p in dut.pin_names if p.startswith(prefix)]
        b = cls.from_dict({p[len(prefix):]: p for p in spec_names})
    else:
        b = cls.from_prefix(prefix)
    return b.bind(dut)


def leaf_pins(bundle):
    """(relative name, pin) of every connected signal, by walking the public accessors."""
    return list(bundle.all_signals())


async def yields(n):
    for _ in range(n):
        await asyncio.sleep(0)
