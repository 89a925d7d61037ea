"""Read-only and write-only fields without storage."""
from amaranth import Module
from amaranth.lib.wiring import In, Out

from . import Access, FieldAction


class R(FieldAction):
    def __init__(self, shape):
        super().__init__(shape, Access.R,
                         {"r_data": In(shape), "r_stb": Out(1)})

    def elaborate(self, platform):
        m = Module()
        m.d.comb += [self.port.r_data.eq(self.r_data),
                     self.r_stb.eq(self.port.r_stb)]
        return m


class W(FieldAction):
    def __init__(self, shape):
        super().__init__(shape, Access.W,
                         {"w_data": Out(shape), "w_stb": Out(1)})

    def elaborate(self, platform):
        m = Module()
        m.d.comb += [self.w_data.eq(self.port.w_data),
                     self.w_stb.eq(self.port.w_stb)]
        return m
