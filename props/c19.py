"""C19: interfaces are isolated from each other, and re-binding moves all of an interface."""
from sim.dut import SimPin

from .common import *

ID = "C19"
QUICK, THOROUGH = 2200, 150000
RULE = ("a case is one or two random interface classes (with a derived class, children declared on the class or created by the constructor; signal lists, nested interfaces and "
        "lists of interfaces), two to six instances on one to three DUTs with their own clocks and partly missing pins, and one task per instance that writes "
        "(pins, dictionaries nested or flat, objects, set_all, randomize_all), sets write modes, reads, asks for the connection reports, waits on the clock and re-binds, concurrently with the others; every pin write of every DUT must be one the instance "
        "asked for and every read must return what its own pin holds; non-trivial when two instances of one class were driven in the same cycle or one was re-bound")
STATE_MEASURE = "(operation, kind of child, DUT, times re-bound, instances of the class)"


def gen(rng, index):
    nd = rng.choice([1, 2, 2, 3])
    nc = rng.choice([1, 1, 2])
    classes = [{"spec": with_rules(rng, gen_bundle_spec(rng, rng.randint(0, 2))), "local": rng.random() < 0.25, "names": rng.random() < 0.3, "derive": rng.random() < 0.3} for _ in range(nc)]
    insts = []
    for _ in range(rng.randint(2, 6)):
        insts.append({"c": rng.randrange(nc), "d": rng.randrange(nd), "derived": rng.random() < 0.5, "how": rng.choice(["prefix", "prefix", "regex", "dict"]), "share": rng.choice([None, None, None, 0, 1, 2]),
                      "pre": [[rng.randint(0, 30), rng.randint(1, 3), rng.randint(1, 2)] for _ in range(rng.choice([0, 0, 0, 1, 2]))], "late": rng.random() < 0.3, "bare": rng.random() < 0.2, "access": rng.random() < 0.6,
                      "ops": [gen_op(rng, nd) for _ in range(rng.randint(1, 10))]})
    return {"nd": nd, "classes": classes, "insts": insts, "miss": rng.choice([0, 0, 0, 0.2, 0.5]), "missseed": rng.randint(0, 99999), "outs": rng.choice([0, 0, 0.3]),
            "slow": [rng.randint(1, 3) for _ in range(nd)], "mode": rng.choice(MODES)}


def with_rules(rng, spec):
    """How the elements of the lists are named."""
    if rng.random() < 0.3:
        spec["rule"], spec["fmt"] = rng.choice([0, 1, 2]), rng.choice(["#", "#", "#x#"])
    for x in spec["sub"] + spec["blist"]:
        with_rules(rng, x[1])
        if rng.random() < 0.15:
            x[1]["wm"] = rng.randint(1, 3)  # the write mode given to it where it is declared
    return spec


RULES = [str, lambda i: "abc"[i % 3] + "x" * (i // 3), lambda i: str(7 - 3 * i if i < 3 else 5 + i)]


def el(spec, name, i):
    return name + spec.get("fmt", "#").replace("#", RULES[spec.get("rule", 0)](i))


def gen_op(rng, nd):
    k = rng.choice(["w", "w", "w", "r", "r", "dict", "all", "rand", "step", "step", "step", "yield", "rebind" if rng.random() < 0.5 else "r", "list", "wild", "mode", "mode", "flat", "object", "report",
                    "connect", "xport", "found"])
    return [k, rng.randint(0, 30), rng.randint(1, 99), rng.randint(1, 3), rng.randrange(nd)]


def nontrivial(sim, case):
    return sim.probes.get("same_class_same_cycle", 0) + sim.faults.get("rebind", 0) > 0


WMODES = {1: ("imme", WriteMode.Imme), 2: ("rise", WriteMode.Rise), 3: ("fall", WriteMode.Fall)}


def give_mode(bundle, m, named=True):
    if m is None:
        return bundle
    return getattr(bundle, f"set_write_mode_as_{WMODES[m][0]}")() if named else bundle.set_write_mode(WMODES[m][1])


def give_first_mode(blist, m):
    give_mode(blist[0], m, False)
    return blist


def nodes(spec, path=()):
    """Paths of the interface and of all interfaces in it with the write mode given at the declaration, innermost first."""
    out = []
    for name, sub in spec["sub"]:
        out += [(p, m if p != path + (name,) else sub.get("wm")) for p, m in nodes(sub, path + (name,))]
    for name, sub, n in spec["blist"]:
        for i in range(n):
            out += [(p, m if p != path + (name, i) else None if i else sub.get("wm")) for p, m in nodes(sub, path + (name, i))]
    return out + [(path, None)]


def make_class(spec, cname, local, names):
    """Like build_bundle_class, with children optionally created by the constructor and signals given by name."""
    ns = {}
    kids = []
    rule = {"rule": RULES[spec["rule"]]} if "rule" in spec else {}
    fmt = spec.get("fmt", "#")
    if names and not local and not (spec["slist"] or spec["sub"] or spec["blist"]):
        return Bundle.new_class_from_list(list(spec["sig"]))
    if names:
        ns["signals"] = list(spec["sig"])
    else:
        ns.update({s: Signal() for s in spec["sig"]})
    for name, n in spec["slist"]:
        kids.append((name, lambda name=name, n=n: SignalList(name + fmt, n, **rule)))
    for name, sub in spec["sub"]:
        c = make_class(sub, cname + name.upper(), local, names)
        kids.append((name, lambda name=name, c=c, m=sub.get("wm"): give_mode(c.from_prefix(f"{name}_"), m)))
    for name, sub, n in spec["blist"]:
        c = make_class(sub, cname + name.upper(), local, names)
        kids.append((name, lambda name=name, c=c, n=n, m=sub.get("wm"): give_first_mode(BundleList(c, f"{name}{fmt}_", n, **rule), m)))
    if local:
        def __init__(self):
            Bundle.__init__(self)
            for name, f in kids:
                setattr(self, name, f())
        ns["__init__"] = __init__
    else:
        ns.update({name: f() for name, f in kids})
    return type(cname, (Bundle,), ns)


def leaves(spec, prefix=""):
    """(pin suffix, path) with path a list of attribute names and indices."""
    out = [(prefix + s, [s]) for s in spec["sig"]]
    for name, n in spec["slist"]:
        out += [(el(spec, prefix + name, i), [name, i]) for i in range(n)]
    for name, sub in spec["sub"]:
        out += [(p, [name] + q) for p, q in leaves(sub, f"{prefix}{name}_")]
    for name, sub, n in spec["blist"]:
        for i in range(n):
            out += [(p, [name, i] + q) for p, q in leaves(sub, el(spec, prefix + name, i) + "_")]
    return out


def walk(bundle, path):
    x = bundle
    for p in path:
        x = x[p] if isinstance(p, int) else getattr(x, p)
    return x


def nested(spec, f, prefix=""):
    """The dictionary form of the interface with f(pin suffix) as values."""
    out = {s: f(prefix + s) for s in spec["sig"]}
    for name, n in spec["slist"]:
        out[name] = [f(el(spec, prefix + name, i)) for i in range(n)]
    for name, sub in spec["sub"]:
        out[name] = nested(sub, f, f"{prefix}{name}_")
    for name, sub, n in spec["blist"]:
        out[name] = [nested(sub, f, el(spec, prefix + name, i) + "_") for i in range(n)]
    return out


def flat(spec, f, prefix="", name=""):
    """The one-level dictionary form: nested interfaces by dots, lists of interfaces by value."""
    out = {name + s: f(prefix + s) for s in spec["sig"]}
    for n, k in spec["slist"]:
        out[name + n] = [f(el(spec, prefix + n, i)) for i in range(k)]
    for n, sub in spec["sub"]:
        out.update(flat(sub, f, f"{prefix}{n}_", f"{name}{n}."))
    for n, sub, k in spec["blist"]:
        out[name + n] = [flat(sub, f, el(spec, prefix + n, i) + "_") for i in range(k)]
    return out


def dotted(path):
    return "".join(f"[{p}]" if isinstance(p, int) else "." + p for p in path)[1:]


class XDataPin(SimPin):
    """A pin that from_prefix(..., dut) takes for a data object."""


class XPort:
    """A port of a DUT: some of its pins under names of their own."""

    def __init__(self, pins):
        self.pins = pins

    def GetKeys(self):
        return list(self.pins)

    def __getitem__(self, name):
        return self.pins[name]


class Message:
    def __init__(self, f):
        self.f = f

    def __bundle_assign__(self, bundle):
        self.f(bundle)


def run(sim, case):
    nd, insts = case["nd"], case["insts"]
    if nd < 1 or not insts or not case["classes"]:
        raise InvalidCase()
    import random as _r
    pick = _r.Random(case["missseed"])
    classes = []
    for i, c in enumerate(case["classes"]):
        k = make_class(c["spec"], f"K{i}", c["local"], c["names"])
        if not leaves(c["spec"]):
            raise InvalidCase()
        classes.append((k, type(f"D{i}", (k,), {}) if c["derive"] else k, c["spec"]))
    # an instance may be another one on the same pins, if it is of the same class
    pre, own = [], []
    for i, s in enumerate(insts):
        j = s.get("share")
        own.append("" if s.get("bare") and "" not in own else f"b{i}_")
        ok = j is not None and j < i and pre[j] == own[j] and insts[j]["c"] % len(classes) == s["c"] % len(classes)
        pre.append(pre[j] if ok else own[i])
    pins = {}
    for d in range(nd):
        pins[d] = []
        for i, s in enumerate(insts):
            if pre[i] != own[i]:
                continue
            mine = [own[i] + suf for suf, _ in leaves(classes[s["c"] % len(classes)][2])]
            keep = [p for p in mine if pick.random() >= case["miss"]]
            pins[d] += keep

    async def test():
        duts = [SimDut(sim, pins[d] + ["spare"], name=f"d{d}", journal=True) for d in range(nd)]
        isout = {}
        for k, x in enumerate(duts):
            for n, p in enumerate(x.pin_names):
                x.pin(p)._w = (0, 1, 8, 32, 70)[(n + k) % 5]
                x.pin(p)._out = isout[k, p] = (n * 7919 + case["missseed"]) % 100 < 100 * case.get("outs", 0)
        modes = {k: "rise" for k in isout}
        bound = {}  # instance -> DUT it is bound to now
        alive = []
        start_clock(duts[0])
        found = [type("Plain", (Bundle,), {}), type("Named", (Bundle,), {"signals": ["n0"]}), type("Plain2", (Bundle,), {"signals": []})]
        held = [{p: 0 for p in d.pin_names} for d in duts]
        done = {"n": 0}

        def expect(who, d, writes, unordered=False):
            """All writes since the last check must be exactly these, on this DUT."""
            for k, x in enumerate(duts):
                got = [(p, v) for _, p, v in x.journal]
                x.journal.clear()
                want = writes if k == d else []
                if sorted(got) != sorted(want):
                    sim.fail("wrong-pin", f"{who}: writes on {x.dname}: {got}, expected {want}")
                for p, v in want:
                    held[k][p] = v

        async def slave(d):
            x = duts[d]
            while True:
                await ClockCycles(duts[0], case["slow"][d])
                x.Step(1)
                x.event.set()
                x.event.clear()
        slaves = [create_task(slave(d)) for d in range(1, nd)]
        last_use = {}

        async def user(i, s):
            cls, der, spec = classes[s["c"] % len(classes)]
            kind = der if s["derived"] else cls
            lv = leaves(spec)
            cur = {"d": s["d"], "n": 0, "access": s["access"]}
            prefix = pre[i]
            if s["late"]:
                await ClockCycles(duts[0], i % 3 + 1)
            how = s["how"]
            if how == "regex":
                b = kind.from_regex(rf"^{prefix}(.*)$")
            elif how == "dict":
                b = kind.from_dict({suf: prefix + suf for suf, _ in lv})
            else:
                b = kind.from_prefix(prefix)
            tree = [n for n, _ in nodes(spec)]
            own_mode = {n: None for n in tree}

            def below(node):
                return [n for n in tree if n[:len(node)] == node]

            def record(node, m):
                for n in below(node):
                    own_mode[n] = WMODES[m][0]
            for node, m in nodes(spec):
                if m is not None:
                    record(node, m)
            for x, m, named in s.get("pre", []):
                node = tree[x % len(tree)]
                r = give_mode(walk(b, node), m, named == 1)
                sim.check(r is walk(b, node), "wrong-return", f"set_write_mode before bind returned {r!r:.60}")
                record(node, m)
                sim.probe("mode_before_bind")
            b.bind(duts[cur["d"]], s["access"])
            bound[i] = cur["d"]
            alive.append(b)
            who = f"instance {i} ({kind.__name__})"
            expect(f"{who} bind", 0, [])

            def there(suf):
                return prefix + suf in held[cur["d"]]

            def value(suf):
                return held[cur["d"]][prefix + suf] if there(suf) else None

            def inputs():
                return [q for q, _ in lv if there(q) and not isout[cur["d"], prefix + q]]

            def set_modes(node):
                """The write modes of the interfaces below node are applied, outer ones first."""
                ins = set(inputs())
                for n in sorted(below(node), key=len):
                    if own_mode[n] is not None:
                        for q, p in lv:
                            if tuple(p[:len(n)]) == n and q in ins:
                                modes[cur["d"], prefix + q] = own_mode[n]
            set_modes(())

            def complete():
                return all(there(suf) for suf, _ in lv)

            def use(k):
                c = (duts[0].cycle, s["c"])
                last_use.setdefault(c, set()).add(i)
                if len(last_use[c]) > 1:
                    sim.probe("same_class_same_cycle")
                sim.log(i, k, cur["d"], duts[0].cycle, duts[cur["d"]].cycle)
                sim.state(k, cur["d"], cur["n"], len(last_use[c]))

            for k, x, v, n, nd_ in s["ops"]:
                suf, path = lv[x % len(lv)]
                use(k)
                what = f"{who} {k} {path} in cycle {duts[0].cycle}"
                if k in ("w", "r"):
                    if not there(suf):
                        if cur["access"]:
                            sim.check(walk(b, path).value is None, "stale-signal", f"{what}: the pin does not exist on {duts[cur['d']].dname}, reading gives "
                                      f"{walk(b, path).value}")
                        else:
                            try:
                                got = walk(b, path).value
                                sim.fail("stale-signal", f"{what}: the pin does not exist on {duts[cur['d']].dname}, reading gives {got}")
                            except AttributeError:
                                pass
                        expect(what, 0, [])
                        continue
                    sig = walk(b, path)
                    sim.check(b[path[0]] is getattr(b, path[0]), "wrong-pin", f"{what}: indexing by name gives something else")
                    if k == "w":
                        sig.value = v
                        expect(what, cur["d"], [(prefix + suf, v)])
                    sim.check(sig.value == value(suf), "wrong-value", f"{what}: {sig.value}, the pin holds {value(suf)}")
                elif k == "object":
                    seen = []

                    def assign(bundle):
                        seen.append(bundle)
                        if there(suf):
                            walk(bundle, path).value = v
                    b.assign(Message(assign))
                    sim.check(len(seen) == 1 and seen[0] is b, "wrong-object", f"{what}: the object was given {seen}")
                    expect(what, cur["d"], [(prefix + suf, v)] if there(suf) else [])
                elif k == "flat":
                    if complete():
                        vals = {q: (v * 5 + j) % 241 for j, (q, _) in enumerate(lv)}
                        item = flat(spec, lambda q: vals[q])
                        if n == 2:  # only a part of it
                            keep = sorted(item)[x % len(item)]
                            item = {keep: item[keep]}
                        b.assign(item, multilevel=False)
                        w = [(prefix + q, vals[q]) for q, p in lv if any(dotted(p) == key or dotted(p).startswith((key + "[", key + ".")) for key in item)]
                        expect(what, cur["d"], w)
                        want = {}
                        for q, p in lv:
                            if p[-1:] and isinstance(p[-1], int):
                                want.setdefault(dotted(p[:-1]), []).append(value(q))
                            else:
                                want[dotted(p)] = value(q)
                        got = b.as_dict(multilevel=False)
                        sim.check(got == want, "wrong-value", f"{what}: as_dict {got}, the pins hold {want}")
                elif k == "xport":
                    # an interface made of a port of the DUT, used beside the others
                    names = [q for q, _ in lv if there(q)]
                    if names:
                        port = XPort({"p" + q: duts[cur["d"]].pin(prefix + q) for q in names})
                        pb = kind.from_xport(port)
                        q = names[x % len(names)]
                        pb["p" + q].value = v
                        expect(what, cur["d"], [(prefix + q, v)])
                        pb.assign({"p" + y: v + 1 for y in names[:n]})
                        expect(what, cur["d"], [(prefix + y, v + 1) for y in names[:n]])
                        if n == 2:
                            pb.set_all(v + 2)
                            expect(what, cur["d"], [(prefix + y, v + 2) for y in inputs()])
                        got = pb.as_dict()
                        sim.check(got == {"p" + y: value(y) for y in names}, "wrong-value", f"{what}: as_dict {got}")
                elif k == "found":
                    # interfaces made of what a DUT has: every one has the signals of its own DUT only
                    cl = found[v % len(found)]
                    sets = [{f"n{(x + m + j) % 9}" for j in range(n)} for m in range(3)]
                    made = []
                    for m, names in enumerate(sets):
                        dx = SimDut(sim, [f"f{m % 2}_{q}" for q in sorted(names)] + ["spare"], name=f"f{m}")
                        for q in dx.pin_names:
                            dx.pin(q).__class__ = XDataPin
                        made.append((dx, f"f{m % 2}_", names, (cl if v % 2 else type("Found", (cl,), {})).from_prefix(f"f{m % 2}_", dx)))
                    blank = SimDut(sim, ["f0_none"])
                    made.append((blank, "f0_", set(), cl.from_prefix("f0_")))
                    for dx, _, _, fb in made:
                        fb.bind(dx)
                    declared = {"n0"} if cl is found[1] else set()
                    for m, (dx, pf, names, fb) in enumerate(made):
                        for q in names:
                            fb[q].value = v + m
                    for m, (dx, pf, names, fb) in enumerate(made):
                        got, want = fb.as_dict(), {q: v + m if q in names else None for q in names | declared}
                        sim.check(got == want, "wrong-value", f"{what}: interface {m} of those made from what a DUT has reads {got}, expected {want}")
                        got = {q: dx.pin(q)._v for q in dx.pin_names}
                        sim.check(got == {q: v + m if q.startswith(pf) and q[len(pf):] in names else 0 for q in dx.pin_names}, "wrong-pin", f"{what}: pins {got}")
                    expect(what, 0, [])
                elif k == "mode":
                    node = () if v % 3 == 0 else tree[x % len(tree)]
                    r = give_mode(walk(b, node), n, v % 2 == 1)
                    sim.check(r is walk(b, node), "wrong-return", f"{what}: returned {r!r:.60}")
                    if node:
                        sim.probe("mode_of_nested")
                    record(node, n)
                    set_modes(node)
                elif k == "report":
                    for dk, dx in enumerate(duts):
                        users = {}
                        for j, dj in bound.items():
                            if dj == dk:
                                for q, _ in leaves(classes[insts[j]["c"] % len(classes)][2]):
                                    users[pre[j] + q] = users.get(pre[j] + q, 0) + 1
                        free = sorted(p for p in dx.pin_names if not users.get(p))
                        many = sorted(p for p in dx.pin_names if users.get(p, 0) > 1)
                        got = sorted(Bundle.detect_unconnected_signals(dx))
                        sim.check(got == free, "wrong-report", f"{what}: unconnected on {dx.dname} {got}, expected {free}")
                        got = sorted(Bundle.detect_multiple_connections(dx))
                        sim.check(got == many, "wrong-report", f"{what}: connected several times on {dx.dname} {got}, expected {many}")
                elif k == "connect":
                    # asking what would be connected changes nothing and is exact
                    for name in {prefix + suf, suf, "b0_" + suf, "spare", prefix + suf + "x", prefix + "s0"}:
                        want = any(name == prefix + q for q, _ in lv)
                        got = b.detect_connectivity(name)
                        sim.check(got is want, "wrong-report", f"{what}: a pin {name} could be connected: {got}")
                        for q, p in lv[n:n + 2] + [(suf, path)]:
                            got = b.detect_specific_connectivity(name, dotted(p))
                            sim.check(got is (name == prefix + q), "wrong-report", f"{what}: a pin {name} could be connected to {dotted(p)}: {got}")
                    rules = b.all_signals_rule()
                    sim.check(sorted(rules) == sorted(dotted(p) for _, p in lv), "wrong-report", f"{what}: rules for {sorted(rules)}")
                    if how == "prefix":
                        want = {dotted(p): prefix + q for q, p in lv}
                        sim.check(rules == want, "wrong-report", f"{what}: rules {rules}, expected {want}")
                    expect(what, 0, [])
                elif k in ("dict", "wild"):
                    if complete():
                        vals = {q: (v * 7 + j) % 251 for j, (q, _) in enumerate(lv)}
                        w = [(prefix + q, vals[q]) for q, _ in lv]
                        item = nested(spec, lambda q: vals[q])
                        if k == "wild":
                            keep = sorted(item)[x % len(item)]
                            item = {keep: item[keep], "*": 200}
                            # the wildcard value goes everywhere first
                            w = [(prefix + q, 200) for q in inputs()] + [(prefix + q, vals[q]) for q, p in lv if p[0] == keep]
                        b.assign(item)
                        final = dict(w)
                        expect(what, cur["d"], w)
                        for p, y in final.items():
                            held[cur["d"]][p] = y
                        got = b.as_dict()
                        sim.check(got == nested(spec, value), "wrong-value", f"{what}: as_dict {got}, the pins hold {nested(spec, value)}")
                elif k == "all":
                    r = b.set_all(v)
                    sim.check(r is b, "wrong-return", f"{what}: returned {r!r:.60}")
                    expect(what, cur["d"], [(prefix + q, v) for q in inputs()])
                elif k == "rand":
                    kw, asked = {}, []
                    if n == 2:
                        kw["value_range"] = (v, v + 9)
                    out = [q for j, q in enumerate(inputs()) if v % 4 == 0 and (j + x) % 2]
                    if out:
                        kw["exclude_signals"] = [dotted(p) for q, p in lv if q in out]

                    def draw(lo, hi):
                        asked.append((lo, hi))
                        return 1000 + len(asked)
                    b.randomize_all(random_func=draw, **kw)
                    got = [(p, y) for _, p, y in duts[cur["d"]].journal]
                    sim.check(sorted(p for p, _ in got) == sorted(prefix + q for q in inputs() if q not in out) and [y for _, y in got] == list(range(1001, 1001 + len(got))), "wrong-pin",
                              f"{what}: randomised {got} without {out}")
                    for (p, _), r in zip(got, asked):
                        full = (0, 2 ** max(1, duts[cur["d"]].pin(p)._w) - 1)
                        sim.check(r == kw.get("value_range", full), "wrong-range", f"{what}: {p} randomised in {r}, expected {kw.get('value_range', full)}")
                    expect(what, cur["d"], got)
                elif k == "list":
                    got = dict(b.all_signals())
                    sim.check(len(got) == len(lv), "wrong-signals", f"{what}: {sorted(got)}")
                    for q, p in lv:
                        if there(q):
                            sim.check(walk(b, p) is duts[cur["d"]].pin(prefix + q), "wrong-pin", f"{what}: {p} is not pin {prefix + q} of {duts[cur['d']].dname}")
                elif k == "step":
                    if any(there(q) for q, _ in lv):
                        d = duts[cur["d"]]
                        c0 = d.cycle
                        await b.step(n)
                        sim.check(duts[cur["d"]] is d and d.cycle == c0 + n, "wrong-clock", f"{what}: step({n}) on {d.dname} in its cycle {c0} returned in its cycle {d.cycle}")
                elif k == "yield":
                    await yields(n)
                elif k == "rebind":
                    cur["d"] = nd_
                    cur["n"] += 1
                    if x % 3 == 0:
                        # perhaps to the pins of another instance, perhaps found in another way
                        j = x % len(insts)
                        if insts[j]["c"] % len(classes) == s["c"] % len(classes) and pre[j] is not None:
                            prefix = pre[i] = pre[j]
                        how = ("prefix", "regex", "dict")[n - 1]
                        r = b.set_prefix(prefix) if how == "prefix" else b.set_regex(rf"^{prefix}(.*)$") if how == "regex" else \
                            b.set_dict({q: prefix + q for q, _ in lv})
                        sim.check(r is b, "wrong-return", f"{what}: setting the method returned {r!r:.60}")
                        sim.fault("rebind_other_pins")
                    cur["access"] = s["access"] if v % 2 else v % 4 == 0
                    b.bind(duts[nd_], cur["access"])
                    bound[i] = nd_
                    set_modes(())
                    sim.fault("rebind")
                    expect(what, 0, [])
                for dk, dx in enumerate(duts):
                    for p in dx.pin_names:
                        sim.check(dx.pin(p).mode == modes[dk, p], "wrong-mode", f"{what}: write mode of {dx.dname}.{p} is {dx.pin(p).mode}, expected {modes[dk, p]}")
            done["n"] += 1

        tasks = [create_task(user(i, s)) for i, s in enumerate(insts)]
        for t in tasks:
            await t
        expect("end", 0, [])
        for d, x in enumerate(duts):
            for p in x.pin_names:
                sim.check(x.pin(p)._v == held[d][p], "wrong-pin", f"{x.dname}.{p} holds {x.pin(p)._v}, expected {held[d][p]}")

    kind, val = sim.toffee_run(test, None, case["mode"])
    if kind == "exc":
        raise val
