"""Byte-wide CSR registers and a bridge to a byte-wide CSR bus.

A read strobes the register in the cycle of the request, whose data is on the
bus in the next one.  A write strobes it `delay` (0 or 1) cycles after the
request: which of the two amaranth_soc does is not relied on."""
import enum

from amaranth import Module, Signal
from amaranth.lib import wiring
from amaranth.lib.wiring import In, Out


class Access(enum.Enum):
    R = "r"
    W = "w"
    RW = "rw"


class Element:
    Access = Access


class FieldPort:
    Access = Access

    class Signature(wiring.Signature):
        def __init__(self, shape, access):
            super().__init__({"r_data": In(shape), "r_stb": Out(1),
                              "w_data": Out(shape), "w_stb": Out(1)})


class FieldAction(wiring.Component):
    def __init__(self, shape, access, members=()):
        super().__init__({"port": In(FieldPort.Signature(shape, access)),
                          **dict(members)})


class Field:
    def __init__(self, action, *args, **kwargs):
        self.action, self.args, self.kwargs = action, args, kwargs

    def create(self):
        return self.action(*self.args, **self.kwargs)


class _Fields:
    pass


class Register:
    def __init_subclass__(cls, *, access, **kwargs):
        super().__init_subclass__(**kwargs)
        cls.access = access

    def __init__(self):
        self.f = _Fields()
        self.fields = {}
        for n, f in self.__annotations__.items():
            if isinstance(f, Field):
                self.fields[n] = f.create()
                setattr(self.f, n, self.fields[n])


class Signature(wiring.Signature):
    def __init__(self, *, addr_width, data_width):
        super().__init__({"addr": Out(addr_width), "r_data": In(data_width),
                          "r_stb": Out(1), "w_data": Out(data_width),
                          "w_stb": Out(1)})


class _Map:
    def __init__(self, addr_width, data_width, regs):
        self.addr_width, self.data_width = addr_width, data_width
        self.regs = regs


class Builder:
    def __init__(self, *, addr_width, data_width):
        self.a, self.d, self.regs, self.next = addr_width, data_width, [], 0

    def add(self, name, reg, *, offset=None):
        if offset is None:
            offset = self.next
        assert offset >= self.next
        self.next = offset + 1
        self.regs.append((name, reg, offset))
        return reg

    def as_memory_map(self):
        return _Map(self.a, self.d, self.regs)


class Bridge(wiring.Component):
    def __init__(self, memory_map):
        self.map = memory_map
        self.delay = 1
        super().__init__({"bus": In(Signature(
            addr_width=memory_map.addr_width,
            data_width=memory_map.data_width))})
        self.bus.memory_map = memory_map

    def elaborate(self, platform):
        m = Module()
        bus = self.bus
        w_stb, w_data = Signal(), Signal(len(bus.w_data))
        w_addr = Signal(len(bus.addr))
        (m.d.sync if self.delay else m.d.comb).__iadd__([
            w_stb.eq(bus.w_stb), w_data.eq(bus.w_data), w_addr.eq(bus.addr)])
        m.d.sync += bus.r_data.eq(0)
        for name, reg, off in self.map.regs:
            pos = 0
            for fn, f in reg.fields.items():
                m.submodules[f"{name}_{fn}"] = f
                p, n = f.port, len(f.port.w_data)
                if reg.access in (Access.W, Access.RW):
                    m.d.comb += [p.w_data.eq(w_data[pos:pos + n]),
                                 p.w_stb.eq(w_stb & (w_addr == off))]
                if reg.access in (Access.R, Access.RW):
                    hit = bus.r_stb & (bus.addr == off)
                    m.d.comb += p.r_stb.eq(hit)
                    with m.If(hit):
                        m.d.sync += bus.r_data[pos:pos + n].eq(p.r_data)
                pos += n
        return m


class Decoder:
    """Not modelled."""


from . import action  # noqa: E402,F401
