"""C18: log accounting is exact under faults."""
import io
import logging
import re
import sys

import toffee.logger as tl

from .common import *

ID = "C18"
QUICK, THOROUGH = 4000, 150000
RULE = ("a case is a running test in which concurrent tasks log records of every severity (module functions, custom levels, with and without ids and exceptions, records "
        "of the framework itself), reconfigure the logging (level, display, file, format) at arbitrary points and read the statistics, with the display and the "
        "log files on simulated devices that fail, fill up, write short or reject characters at arbitrary writes; non-trivial when an output failed or the "
        "logging was reconfigured while records followed")
STATE_MEASURE = "(severity, has id, display, file, level, failing outputs)"
LEVELS = [("debug", 10), ("info", 20), ("warning", 30), ("error", 40), ("critical", 50), ("log", 25), ("log", 35), ("exception", 40)]
IDS = ["alpha", "beta", "b2", "(id: x)", "%d", "näme", "alpha beta", 7, " x ", "  ", 0, "x\ty", ("t", 1)]


def gen(rng, index):
    h = rng.randint(2, 10)
    ops = []
    conf_p = rng.choice([0.05, 0.2, 0.4])
    for _ in range(rng.randint(5, 40) if rng.random() < 0.95 else rng.randint(60, 250)):
        at, y = rng.randint(0, h), rng.randint(0, 3)
        if rng.random() < conf_p:
            ops.append([at, y, "conf", rng.choice([10, 20, 30, 40]), rng.random() < 0.7, rng.choice([None, "a.log", "a.log", "b.log"]), rng.choice([0, 0, 0, 1, 2]),
                        rng.random() < 0.5])
        else:
            k = rng.choice(["rec"] * 6 + ["frame", "summary", "pair", rng.choice(["tap", "child", "burst"])])
            ops.append([at, y, k, rng.randrange(len(LEVELS)), rng.choice([None, None, "", *range(len(IDS))]), rng.choice(["plain", "args", "brace", "uni", "multi"])])
    fail = rng.choice(["none", "none", "display", "file", "both"])

    def fails(p):
        return sorted({rng.randint(0, 40) for _ in range(rng.randint(1, 8))}) if p else []
    return {"horizon": h, "ops": ops, "first": [rng.choice([10, 20, 30]), rng.random() < 0.7, rng.choice([None, "a.log"]), 0, False] if rng.random() < 0.9 else None,
            "display_fail": fails(fail in ("display", "both")), "display_kind": rng.choice(["ENOSPC", "EPIPE", "ValueError", "Unicode", "flush"]),
            "file_fail": fails(fail in ("file", "both")), "file_kind": rng.choice(["ENOSPC", "EIO", "short", "full"]), "short": rng.random() < 0.3,
            "mode": rng.choice(MODES)}


def nontrivial(sim, case):
    return sim.probes.get("reconfigured", 0) > 0 or any(sim.faults.get(k) for k in ("display_error", "file_error"))


FORMATS = [None, "%(levelname)s%(log_id)s|%(message)s", "%(message)s%(log_id)s"]


def run(sim, case):
    devices = {}

    class Display:
        """The console: a stream whose writes or flushes fail."""

        def __init__(self):
            self.n, self.text, self.failed = 0, [], 0

        def write(self, s):
            self.n += 1
            if self.n in case["display_fail"] and case["display_kind"] != "flush":
                self.failed += 1
                sim.fault("display_error")
                k = case["display_kind"]
                if k == "ValueError":
                    raise ValueError("I/O operation on closed file")
                if k == "Unicode":
                    raise UnicodeEncodeError("ascii", "x", 0, 1, "ordinal not in range")
                raise OSError({"ENOSPC": 28, "EPIPE": 32}[k], k)
            self.text.append(s)
            return len(s)

        def flush(self):
            if case["display_kind"] == "flush" and self.n in case["display_fail"]:
                self.failed += 1
                sim.fault("display_error")
                raise OSError(28, "ENOSPC")

    class Disk(io.RawIOBase):
        """A file on a simulated disk: errors, short writes, full from some write on until freed."""

        def __init__(self, name, mode):
            self.name_, self.data, self.n, self.failed = name, bytearray(), 0, 0
            if mode == "a" and name in devices:
                self.data[:] = devices[name].data
            self.gone = False

        def writable(self):
            return True

        def write(self, b):
            self.n += 1
            b = bytes(b)
            k = case["file_kind"]
            hit = self.n in case["file_fail"] or (k == "full" and case["file_fail"] and case["file_fail"][0] <= self.n <= case["file_fail"][-1])
            if hit:
                self.failed += 1
                sim.fault("file_error")
                if k in ("ENOSPC", "full"):
                    raise OSError(28, "No space left on device")
                if k == "EIO":
                    raise OSError(5, "Input/output error")
            if (hit and k == "short" or case["short"]) and len(b) > 1:
                sim.fault("short_write")
                b = b[:len(b) // 2]
            self.data += b
            return len(b)

    def fake_open(name, mode="r", encoding=None, errors=None, **kw):
        import os
        name = os.path.basename(name)
        sim.check(mode in ("w", "a"), "open-mode", f"log file opened with mode {mode}")
        raw = Disk(name, mode)
        devices[name] = raw
        opened.append(raw)
        return io.TextIOWrapper(io.BufferedWriter(raw), encoding="utf-8", errors=errors, write_through=False)

    st = {"taps": []}
    opened = []
    logging.open = fake_open
    display = Display()
    logging.raiseExceptions = True

    # ------------------------------------------------------------------ reference accounting
    ref = {"sev": {}, "id": {}, "level": None, "display": False, "file": None, "fmt": 0, "n": 0}
    expected = {"display": [], "files": []}  # files: [disk, list]
    base = {}

    def stats():
        h = tl.stats_handler
        return dict(h.serverity_stats), {str(k): v for k, v in h.id_stats.items()}

    class Tap(logging.Handler):
        """A handler of the user's own: gets the records as they were logged."""

        def __init__(self):
            super().__init__()
            self.got, self.want = [], []

        def emit(self, r):
            self.got.append((r.levelname, str(r.msg), r.__dict__.get("log_id")))

    def console():
        """Whatever else writes to the console does so on the simulated one."""
        lg = tl.toffee_logger
        while lg is not None:
            for h in lg.handlers:
                if isinstance(h, logging.StreamHandler) and h is not tl.screen_handler and h.stream in (sys.stderr, sys.stdout, sys.__stderr__, sys.__stdout__):
                    h.setStream(display)
            lg = lg.parent if lg.propagate else None

    def imported():
        """The logging as importing toffee leaves it."""
        tl.toffee_logger.setLevel(sim.log_default[0])
        tl.toffee_logger.handlers[:] = sim.log_default[1]
        tl.screen_handler.setStream(display)
        console()
        ref.update(level=30, display=True, file=None, fmt=0)

    def configure(level, disp, file, fmt, implied=False):
        kw = {"format": FORMATS[fmt]} if fmt else {}
        for k, v, d in (("log_level", level, 30), ("console_display", disp, True), ("log_file", file, None)):
            if not implied or v != d:
                kw[k] = v
        if ref["level"] is not None:
            sim.probe("reconfigured")
        before = len(opened)
        toffee.setup_logging(**kw)
        tl.screen_handler.setStream(display)
        console()
        st["taps"] = []
        ref.update(level=level, display=disp, file=None, fmt=fmt)
        if file:
            sim.check(len(opened) == before + 1, "no-file", f"{file} was not opened")
            ref["file"] = opened[-1]
            expected["files"].append([opened[-1], []])
        sim.log("conf", level, disp, file, fmt)

    def account(levelno, levelname, rid, token, has_msg):
        """A record was offered to the framework."""
        if levelno < ref["level"]:
            return
        ref["n"] += 1
        ref["sev"][levelname] = ref["sev"].get(levelname, 0) + 1
        key = "<none>" if rid in (None, "") else str(rid)
        ref["id"][key] = ref["id"].get(key, 0) + 1
        if ref["display"]:
            expected["display"].append((token, rid, ref["fmt"], levelname, display.n))
        if ref["file"] is not None:
            expected["files"][-1][1].append((token, rid, ref["fmt"], levelname, ref["file"].n))

    def compare(where):
        sev, ids = stats()
        for k in set(sev) | set(ref["sev"]):
            sim.check(sev.get(k, 0) - base["sev"].get(k, 0) == ref["sev"].get(k, 0), "wrong-severity-count",
                      f"{where}: {k} counted {sev.get(k, 0) - base['sev'].get(k, 0)}, logged {ref['sev'].get(k, 0)}")
        named = {k: v for k, v in ref["id"].items() if k != "<none>"}
        for k, v in named.items():
            sim.check(ids.get(k, 0) - base["id"].get(k, 0) == v, "wrong-id-count", f"{where}: id {k!r} counted {ids.get(k, 0) - base['id'].get(k, 0)}, logged {v}")
        rest = sum(v - base["id"].get(k, 0) for k, v in ids.items() if k not in named)
        sim.check(rest == ref["id"].get("<none>", 0), "wrong-id-count", f"{where}: {rest} records without id counted, {ref['id'].get('<none>', 0)} logged: {ids}")

    count = {"n": 0}

    def record(li, ii, style, logger=None):
        name, no = LEVELS[li % len(LEVELS)]
        rid = ii if ii in (None, "") else f"dyn{ii}" if ii >= 100 else IDS[ii % len(IDS)]
        tok = f"<#{count['n']}#>"
        count["n"] += 1
        extra = {} if rid is None else {"extra": {"log_id": rid}}
        msg, args = {"plain": (f"{tok} message", ()), "args": ("%s value %d", (tok, 5)), "brace": (tok + " {x} %%s", ()), "uni": (tok + " größe ✓", ()),
                     "multi": (tok + "\nsecond line", ())}[style]
        lname = logging.getLevelName(no)
        account(no, lname, rid, tok, True)
        if no >= ref["level"]:
            for tap in st["taps"]:
                tap.want.append((lname, msg, rid))
        if logger is not None:
            logger.log(no, msg, *args, **extra)
        elif name == "log":
            toffee.log(no, msg, *args, **extra)
        elif name == "exception":
            try:
                raise KeyError("cause")
            except KeyError:
                toffee.exception(msg, *args, **extra)
        else:
            getattr(toffee, name)(msg, *args, **extra)
        sim.log("rec", lname, repr(rid), no >= ref["level"])
        sim.state(lname, rid is not None, ref["display"], ref["file"] is not None, ref["level"], display.failed > 0)

    async def framework(dut):
        """A record of the framework: the warning of a bundle with a missing signal, the infos of the others."""
        cls = type("B", (Bundle,), {"a": Signal(), "zz": Signal()})
        account(20, "INFO", None, "connected", False)
        account(30, "WARNING", None, "io_zz", False)
        foreign()
        cls.from_prefix("io_").bind(dut)

    def foreign():
        """The framework logs records of its own from here: a tap is checked so far and starts again."""
        for tap in st["taps"]:
            tapped(tap)
            tap.got.clear()
            tap.want.clear()
            tap.skip = True

    def tapped(tap):
        if getattr(tap, "skip", False):
            # from the framework's own records on only ours are compared
            tap.got[:] = [g for g in tap.got if "<#" in g[1] or g[1].startswith("%s value")]
        sim.check(tap.got == tap.want, "record-changed", f"a handler of the user's received {tap.got}, logged were {tap.want}")

    def summ():
        sev, _ = stats()
        account(20, "INFO", None, "Log Summary", False)
        foreign()
        tl.summary()
        sim.log("summary", sorted(sev.items()))
        if ref["level"] <= 20:
            for lst, text in outputs():
                if not any(x.failed for x in [display] + opened):
                    sim.check("Log Summary" in text, "lost-output", "the summary is not shown")
                    tail = text[text.rindex("Log Summary"):]
                    for k, v in sev.items():
                        sim.check(f"{k}:\t{v}\n" in tail, "wrong-summary", f"summary {tail!r} does not show {k}: {v}")

    def outputs():
        out = []
        if ref["display"]:
            out.append((expected["display"], "".join(display.text)))
        if ref["file"] is not None:
            out.append((expected["files"][-1][1], ref["file"].data.decode("utf-8", "replace")))
        return out

    def judge(where, text, items, failures):
        """Every record once, in order, with its id as given; what failed may be missing."""
        toks = [m.group(0) for m in re.finditer(r"<#\d+#>", text)]
        want = [t for t, *_ in items if t.startswith("<#")]
        if not failures:
            sim.check(toks == want, "wrong-output", f"{where}: shows {toks[:60]}, expected {want[:60]}")
        else:
            dup = {t for t in toks if toks.count(t) > 1}
            sim.check(not dup, "shown-twice", f"{where}: {dup}")
            pos = [want.index(t) for t in toks if t in want]
            sim.check(pos == sorted(pos), "out-of-order", f"{where}: shows {toks}")
            sim.check(all(t in want for t in toks), "unwanted-output", f"{where}: shows {toks}, expected only {want}")
            sim.check(len(want) - len(toks) <= 3 * failures + 2, "lost-output", f"{where}: {failures} failed writes, but shows only {toks} of {want}")
        lines = {}
        for line in text.split("\n"):
            for t in re.findall(r"<#\d+#>", line):
                lines[t] = line
        for t, rid, fmt, lname, _ in items:
            if not t.startswith("<#") or t not in lines:
                continue
            line = lines[t]
            shown = line.count("(id: ")
            if failures:
                continue
            if rid in (None, ""):
                sim.check(shown == 0, "wrong-id-shown", f"{where}: a record without id is shown as {line!r}")
            else:
                sim.check(f"(id: {rid})" in line and shown == 1 + str(rid).count("(id: ") or fmt == 2, "wrong-id-shown",
                          f"{where}: a record with id {rid!r} is shown as {line!r}")
            if fmt != 2:
                sim.check(lname in line, "wrong-severity-shown", f"{where}: a {lname} record is shown as {line!r}")
            if fmt == 1:
                body = re.sub(r"^\x1b\[\d+m", "", line)
                sim.check(body.startswith(lname + ("" if rid in (None, "") else f"(id: {rid})") + "|" + t), "wrong-format", f"{where}: {line!r} does not follow the format")
            elif fmt == 2:
                body = re.sub(r"^\x1b\[\d+m", "", line)
                sim.check(body.startswith(t), "wrong-format", f"{where}: {line!r} does not follow the format")

    async def test():
        configure(*case["first"]) if case["first"] else imported()
        base["sev"], base["id"] = stats()
        ref.update(sev={}, id={}, n=0)
        dut = SimDut(sim, ["io_a"])
        start_clock(dut)

        async def actor(o):
            await ClockCycles(dut, o[0])
            await yields(o[1])
            try:
                if o[2] == "conf":
                    configure(*o[3:])
                elif o[2] == "rec":
                    record(*o[3:])
                elif o[2] == "pair":
                    record(*o[3:])
                    record(o[3] + 1, o[4], o[5])
                elif o[2] == "burst":
                    for i in range(40):
                        record(o[3] + i % 3, (o[4] if o[5] not in ("args", "plain") or o[4] in (None, "") else 100 + (o[4] * 37 + i) % 90) if i % 3 else None, o[5])
                elif o[2] == "child":
                    record(*o[3:6], logger=logging.getLogger("TOFFEE.part") if o[3] % 2 else toffee.get_logger())
                elif o[2] == "tap":
                    tap = Tap()
                    # Before the displays, so that it gets what they make of the record only if they change the record, or after them
                    if o[3] % 2:
                        tl.toffee_logger.addHandler(tap)
                    else:
                        tl.toffee_logger.handlers.insert(0, tap)
                    st["taps"].append(tap)
                    record(*o[3:6])
                elif o[2] == "frame":
                    await framework(dut)
                else:
                    summ()
            except (OSError, ValueError) as e:
                sim.fail("output-failure-reached-test", f"{o}: {e!r}")
            for tap in st["taps"]:
                tapped(tap)
            compare(f"cycle {dut.cycle} after {o[2]}")
        for t in [create_task(actor(o)) for o in case["ops"]]:
            await t

    kind, val = sim.toffee_run(test, None, case["mode"])
    if kind == "exc":
        raise val
    # the run's own closing summary
    account(20, "INFO", None, "Log Summary", False)
    compare("end of run")
    # an output that can be written again is flushed when the logging is closed
    case["file_fail"][:] = []
    toffee.setup_logging(log_level=logging.CRITICAL, console_display=False)
    judge("display", "".join(display.text), expected["display"], display.failed)
    for i, (disk, items) in enumerate(expected["files"]):
        judge(f"file {i} {disk.name_}", disk.data.decode("utf-8", "replace"), items, disk.failed)
    n_frame = sum(1 for t, *_ in expected["display"] if t == "io_zz")
    if not display.failed:
        got = "".join(display.text).count('"zz"')
        sim.check(got == n_frame, "wrong-output", f"{n_frame} framework warnings logged, the display shows {got}")
