"""Stub DUT: the only part of the system that is not real code.

It offers the interface toffee uses of a picker-generated DUT: pins (event, value, xdata, W, IsOutIO,
As*Write), `event`, `Step(n)`, `StepRis(f)`.  Its outputs are computed by a seeded waveform or by a
small behaviour function supplied by the property.
"""
import asyncio


class XData:
    pass


class SimPin:
    def __init__(self, dut, name, width=32, out=False):
        self.xdata = XData()
        self.event = dut.event
        self._name = name
        self._dut = dut
        self._w = width
        self._out = out
        self._v = 0
        self.mode = "rise"

    def __getattr__(self, name):
        # like the pins of a generated DUT: anything else comes from the data object
        if name == "xdata":
            raise AttributeError(name)
        return getattr(self.xdata, name)

    # value is an ordinary attribute of the pin; writes are journalled
    @property
    def value(self):
        if self._dut.over is not None:
            self._dut.over.append(f"{self._name} read")
        return self._v

    @value.setter
    def value(self, v):
        if self._dut.over is not None:
            self._dut.over.append(f"{self._name} written")
        self._v = v
        j = self._dut.journal
        if j is not None:
            j.append((self._dut.cycle, self._name, v))

    def W(self):
        return self._w

    def IsOutIO(self):
        return self._out

    def AsImmWrite(self):
        self.mode = "imme"

    def AsRiseWrite(self):
        self.mode = "rise"

    def AsFallWrite(self):
        self.mode = "fall"


class SimDut:
    def __init__(self, sim, pins, name="dut", on_step=None, journal=False):
        self.sim = sim
        self.event = asyncio.Event()
        self.cycle = 0
        self.dname = name
        self.journal = [] if journal else None
        self.ris = []
        self.on_step_func = on_step
        self.pre_step_func = None
        self.post_step_func = None
        self.in_step = False
        self.over = None  # a list once nobody may use this DUT any more: it collects what is done to it
        self.fail_at = None
        self.pin_names = list(pins)
        for p in pins:
            setattr(self, p, SimPin(self, p))

    def pin(self, name):
        return getattr(self, name)

    def Step(self, n=1):
        if self.over is not None:
            self.over.append("stepped")
        for _ in range(n):
            if self.pre_step_func is not None:
                self.pre_step_func(self)
            self.sim.on_step(self)
            self.cycle += 1
            self.sim.log("step", self.dname, self.cycle)
            if self.fail_at is not None and self.cycle == self.fail_at:
                self.sim.fault("dut_step_error")
                raise OSError(f"simulated DUT failure at cycle {self.cycle}")
            if self.on_step_func is not None:
                self.on_step_func(self)
            for f in list(self.ris):
                f(self.cycle)
            if self.post_step_func is not None:
                self.post_step_func(self)

    def StepRis(self, f, *args, **kw):
        self.ris.append(f)
