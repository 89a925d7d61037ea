"""MemoryMap as far as examples/attosoc.py fills it in (no address is decided
by it in the checks)."""


class MemoryMap:
    def __init__(self, *, addr_width, data_width, alignment=0):
        self.addr_width, self.data_width = addr_width, data_width
        self.alignment = alignment
        self.resources = []

    def add_resource(self, resource, *, name, size, addr=None,
                     alignment=None):
        self.resources.append((resource, name, size, addr))
