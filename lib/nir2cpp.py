"""Translate an Amaranth netlist (amaranth.hdl._nir) into a C++ step function.

The netlist is what Amaranth itself elaborates from the design; it is the last
representation before RTLIL/Verilog is printed.  The C++ produced here is the
transition relation of the model that the explorers enumerate:

    struct State  every flip-flop, memory row and read-port latch (flat POD:
                  copying it is a snapshot, hashing it identifies a state)
    struct In     every top-level input except the clock
    struct Out    every top-level output
    step<COMMIT>(State&, const In&, Out&)   outputs, and the clock edge if COMMIT

Word-level emission: one C++ local per netlist cell.  A PriorityMatch is kept
as the index of the matching arm, and when its arms are plain patterns on one
narrow value that index comes from a lookup table; runs of assignments guarded
by one PriorityMatch become a `switch`.
"""

from amaranth.hdl import _nir as nir
from amaranth.hdl import Fragment
from amaranth.hdl._ir import build_netlist


def ctype(w):
    if w <= 1:
        return "uint8_t"
    if w <= 8:
        return "uint8_t"
    if w <= 16:
        return "uint16_t"
    if w <= 32:
        return "uint32_t"
    if w <= 64:
        return "uint64_t"
    if w <= 128:
        return "u128"
    raise NotImplementedError(f"width {w}")


def wtype(w):
    """Working type for expressions."""
    if w <= 32:
        return "uint32_t"
    if w <= 64:
        return "uint64_t"
    if w <= 128:
        return "u128"
    raise NotImplementedError(f"width {w}")


def lit(v, w):
    if w <= 32:
        return f"0x{v:x}u"
    if w <= 64:
        return f"0x{v:x}ull"
    hi, lo = v >> 64, v & ((1 << 64) - 1)
    return f"(((u128)0x{hi:x}ull<<64)|0x{lo:x}ull)"


def mask(w):
    return (1 << w) - 1


class _Dead:
    """Placeholder of a cell no output depends on."""

    def input_nets(self):
        return ()


_DEAD = _Dead()


class Compiler:
    def __init__(self, netlist, ns):
        self.nl = netlist
        self.cells = netlist.cells
        self.ns = ns
        self.top = self.cells[0]
        self.width = {}
        self.tables = []
        self.split = set()      # AssignmentList/bitwise cells emitted per bit
        self._widths()

    # -- widths ------------------------------------------------------------
    def _widths(self):
        for i, c in enumerate(self.cells):
            if isinstance(c, nir.Operator):
                w = c.width
            elif isinstance(c, nir.Part):
                w = c.width
            elif isinstance(c, nir.Matches):
                w = 1
            elif isinstance(c, nir.PriorityMatch):
                w = len(c.inputs)
            elif isinstance(c, nir.AssignmentList):
                w = len(c.default)
            elif isinstance(c, nir.FlipFlop):
                w = len(c.data)
            elif isinstance(c, (nir.AsyncReadPort, nir.SyncReadPort)):
                w = c.width
            elif isinstance(c, nir.AnyValue):
                w = c.width
            elif isinstance(c, nir.Initial):
                w = 1
            elif isinstance(c, (nir.Top, nir.Memory, nir.SyncWritePort,
                                nir.AsyncPrint, nir.SyncPrint,
                                nir.AsyncProperty, nir.SyncProperty)):
                w = 0
            else:
                raise NotImplementedError(type(c).__name__)
            self.width[i] = w
        # Top inputs: bit -> (name, offset)
        self.inbits = {}
        for name, (start, w) in self.top.ports_i.items():
            for b in range(w):
                self.inbits[start + b] = (name, b, w)

    # -- expressions -------------------------------------------------------
    def _ref(self, cell, lo, w):
        """C++ expression for bits [lo, lo+w) of a cell's output."""
        c = self.cells[cell]
        if cell == 0:
            name, off, pw = self.inbits[lo]
            return self._slice(f"in.{name}", off, w, pw)
        if isinstance(c, nir.PriorityMatch):
            if w == 1:
                return f"(uint32_t)(p{cell}=={lo})"
            # One-hot bits as a number.
            t = wtype(w)
            return (f"((p{cell}>={lo}&&p{cell}<{lo + w})?"
                    f"(({t})1<<(p{cell}-{lo})):({t})0)")
        if isinstance(c, (nir.FlipFlop, nir.SyncReadPort)):
            return self._slice(f"s.r{cell}", lo, w, self.width[cell])
        if cell in self.split:
            if w == 1:
                return f"c{cell}_{lo}"
            t = wtype(w)
            return "(" + "|".join(f"(({t})c{cell}_{lo + k}<<{k})"
                                  for k in range(w)) + ")"
        return self._slice(f"c{cell}", lo, w, self.width[cell])

    def _slice(self, base, lo, w, full):
        if lo == 0 and w == full:
            return base
        t = wtype(w)
        sh = f"({base}>>{lo})" if lo else base
        if lo + w == full:
            return f"(({t}){sh})"
        return f"(({t})({sh}&{lit(mask(w), full - lo)}))"

    def expr(self, value):
        """C++ expression for a nir.Value (or a single Net)."""
        if isinstance(value, nir.Net):
            value = [value]
        value = list(value)
        w = len(value)
        if w == 0:
            return "0u"
        t = wtype(w)
        parts = []
        const = 0
        i = 0
        while i < w:
            n = value[i]
            if n.is_const:
                const |= n.const << i
                i += 1
                continue
            cell, bit = n.cell, n.bit
            j = i + 1
            while (j < w and not value[j].is_const and value[j].cell == cell
                   and value[j].bit == bit + (j - i)
                   and (cell != 0 or self.inbits[value[j].bit][0]
                        == self.inbits[bit][0])):
                j += 1
            # replicated single bit (sign extension)
            k = i + 1
            while k < w and value[k] == n:
                k += 1
            if k - i > 1 and k > j:
                e = self._ref(cell, bit, 1)
                parts.append(f"({e}?{lit(mask(k - i) << i, w)}:({t})0)")
                i = k
                continue
            e = self._ref(cell, bit, j - i)
            parts.append(f"(({t}){e}<<{i})" if i else f"({t}){e}")
            i = j
        if const or not parts:
            parts.append(lit(const, w))
        return parts[0] if len(parts) == 1 else "(" + "|".join(parts) + ")"

    # -- dependencies ------------------------------------------------------
    def deps(self, i):
        c = self.cells[i]
        if isinstance(c, (nir.FlipFlop, nir.SyncReadPort, nir.Memory, nir.Top,
                          nir.SyncWritePort)):
            return set()
        return {n.cell for n in c.input_nets() if not n.is_const
                and n.cell != 0}

    def order(self):
        """Topological order of combinational nodes; a node is a cell, or a
        (cell, bit) of a cell that had to be split to break a word-level
        (not bit-level) cycle."""
        comb = [i for i, c in enumerate(self.cells)
                if c is not _DEAD and self.width[i] and not isinstance(
                    c, (nir.FlipFlop, nir.SyncReadPort))]
        while True:
            out, bad = self._try_order(comb)
            if bad is None:
                return out
            new = {b for b in bad if b not in self.split and isinstance(
                self.cells[b], (nir.AssignmentList, nir.Operator))
                and (isinstance(self.cells[b], nir.AssignmentList)
                     or self.cells[b].operator in ("~", "&", "|", "^", "m"))}
            if not new:
                raise RuntimeError(f"combinational cycle through {bad}")
            self.split |= new

    def _node_deps(self, node):
        if isinstance(node, tuple):
            i, b = node
            nets = {e[0] for e in self.cells[i].comb_edges_to(b)}
        else:
            c = self.cells[node]
            nets = c.input_nets()
        out = set()
        for n in nets:
            if n.is_const or n.cell == 0:
                continue
            if isinstance(self.cells[n.cell], (nir.FlipFlop,
                                               nir.SyncReadPort)):
                continue
            out.add((n.cell, n.bit) if n.cell in self.split else n.cell)
        return out

    def _try_order(self, comb):
        nodes = []
        for i in comb:
            if i in self.split:
                nodes += [(i, b) for b in range(self.width[i])]
            else:
                nodes.append(i)
        state, out, stack_set = {}, [], []
        for root in nodes:
            if root in state:
                continue
            stack = [(root, iter(sorted(self._node_deps(root), key=str)))]
            state[root] = 1
            path = [root]
            while stack:
                node, it = stack[-1]
                for d in it:
                    st = state.get(d)
                    if st == 1:
                        cyc = path[path.index(d):]
                        return None, [x[0] if isinstance(x, tuple) else x
                                      for x in cyc]
                    if st is None:
                        state[d] = 1
                        path.append(d)
                        stack.append((d, iter(sorted(self._node_deps(d),
                                                     key=str))))
                        break
                else:
                    state[node] = 2
                    out.append(node)
                    stack.pop()
                    path.pop()
        return out, None

    # -- emission ----------------------------------------------------------
    def emit_cell(self, node):
        if isinstance(node, tuple):
            return self._emit_split(*node)
        i = node
        c = self.cells[i]
        w = self.width[i]
        if isinstance(c, nir.Operator):
            return [f"{ctype(w)} c{i}={self._op(c, w)};"]
        if isinstance(c, nir.Part):
            return self._part(i, c, w)
        if isinstance(c, nir.Matches):
            if i in self.elided:
                return []
            return [f"uint8_t c{i}={self._match(c)};"]
        if isinstance(c, nir.PriorityMatch):
            return self._prio(i, c)
        if isinstance(c, nir.AssignmentList):
            return self._alist(i, c, w)
        if isinstance(c, nir.AsyncReadPort):
            m = self.cells[c.memory]
            return [f"{ctype(w)} c{i}=({self.expr(c.addr)}<{m.depth}u)?"
                    f"{self._memref(c.memory)}[{self.expr(c.addr)}]:0;"]
        if isinstance(c, nir.Initial):
            return [f"uint8_t c{i}=0;"]
        raise NotImplementedError(type(c).__name__)

    def _op(self, c, w):
        o = c.operator
        a = [f"({self.expr(v)})" for v in c.inputs]
        iw = [len(v) for v in c.inputs]
        t = wtype(w)
        m = lit(mask(w), w)
        if o == "~":
            return f"(~({t}){a[0]})&{m}"
        if o == "-" and len(a) == 1:
            return f"(({t})0-({t}){a[0]})&{m}"
        if o in ("+", "-", "*"):
            return f"(({t}){a[0]}{o}({t}){a[1]})&{m}"
        if o in ("&", "|", "^"):
            return f"{a[0]}{o}{a[1]}"
        if o in ("u//", "u%"):
            return f"({a[1]}?({a[0]}{o[1]}{a[1]}):0)"
        if o in ("b", "r|"):
            return f"{a[0]}!=0"
        if o == "r&":
            return f"{a[0]}=={lit(mask(iw[0]), iw[0])}"
        if o == "r^":
            if iw[0] <= 64:
                return f"__builtin_parityll((uint64_t){a[0]})"
            return (f"__builtin_parityll((uint64_t){a[0]}^"
                    f"(uint64_t)((u128){a[0]}>>64))")
        if o in ("s//", "s%"):      # rounds towards minus infinity; x/0 = 0
            x, y = self._signed(a[0], iw[0]), self._signed(a[1], iw[1])
            f = "fdiv" if o == "s//" else "fmod_"
            return f"(({t}){f}({x},{y}))&{m}"
        if o in ("<<", "u>>", "s>>"):
            sh = f"(uint64_t){a[1]}"
            if o == "<<":
                return f"({sh}>={w}u)?({t})0:((({t}){a[0]}<<{sh})&{m})"
            if o == "u>>":
                return f"({sh}>={w}u)?({t})0:(({t}){a[0]}>>{sh})"
            s = self._signed(a[0], w)
            return f"(({t})({s}>>(({sh}>={w}u)?{w - 1}u:{sh})))&{m}"
        if o in ("==", "!="):
            return f"{a[0]}{o}{a[1]}"
        if o in ("u<", "u>", "u<=", "u>="):
            return f"{a[0]}{o[1:]}{a[1]}"
        if o in ("s<", "s>", "s<=", "s>="):
            return (f"{self._signed(a[0], iw[0])}{o[1:]}"
                    f"{self._signed(a[1], iw[1])}")
        if o == "m":
            return f"{a[0]}?({t}){a[1]}:({t}){a[2]}"
        raise NotImplementedError(o)

    def _signed(self, e, w):
        if w > 64:
            return f"(((__int128)((u128){e}<<{128 - w}))>>{128 - w})"
        return f"(((int64_t)((uint64_t){e}<<{64 - w}))>>{64 - w})"

    def _part(self, i, c, w):
        vw = len(c.value)
        big = "u128" if max(vw, w) > 32 else "uint64_t"
        val = f"({big}){self.expr(c.value)}"
        lines = [f"{big} pv{i}={val};"]
        bits = 128 if big == "u128" else 64
        if c.value_signed:
            top = self.expr(c.value[-1])
            lines.append(f"if({top})pv{i}|=(({big})~({big})0)<<{vw};"
                         if vw < bits else "")
        lines.append(f"uint64_t po{i}=(uint64_t)({self.expr(c.offset)})"
                     f"*{c.stride}u;")
        fill = f"(({big})0-({big}){self.expr(c.value[-1])})" \
            if c.value_signed else f"({big})0"
        lines.append(f"{ctype(w)} c{i}=(({wtype(w)})(po{i}>={bits}?{fill}:"
                     f"(pv{i}>>po{i})))&{lit(mask(w), w)};")
        return [ln for ln in lines if ln]

    def _match1(self, e, pat, w):
        care = int("".join("0" if p == "-" else "1" for p in pat) or "0", 2)
        val = int("".join("1" if p == "1" else "0" for p in pat) or "0", 2)
        if care == 0:
            return "1"
        if care == mask(w):
            return f"({e}=={lit(val, w)})"
        return f"(({e}&{lit(care, w)})=={lit(val, w)})"

    def _match(self, c):
        w = len(c.value)
        e = self.expr(c.value)
        return "||".join(self._match1(e, p, w) for p in c.patterns) or "0"

    def _table_for(self, c):
        """If every arm is a Matches on one value of <=12 bits (or const),
        the lookup table value -> arm index."""
        value = None
        for n in c.inputs:
            if n.is_const:
                continue
            m = self.cells[n.cell]
            if not isinstance(m, nir.Matches):
                return None
            if value is None:
                value = m.value
            elif tuple(value) != tuple(m.value):
                return None
        if value is None or len(value) > 12:
            return None
        w = len(value)
        none = len(c.inputs)
        tab = [none] * (1 << w)
        for k in reversed(range(len(c.inputs))):
            n = c.inputs[k]
            if n.is_const:
                if n.const:
                    tab = [k] * (1 << w)
                continue
            for p in self.cells[n.cell].patterns:
                care = int(p.replace("1", "1").translate(
                    str.maketrans("01-", "110")) or "0", 2)
                val = int(p.replace("-", "0") or "0", 2)
                for v in range(1 << w):
                    if v & care == val:
                        tab[v] = k
        return value, tab

    def _prio(self, i, c):
        n = len(c.inputs)
        t = "uint16_t" if n > 250 else "uint8_t"
        en = None if (c.en.is_const and c.en.const) else self.expr(c.en)
        got = self._table_for(c) if n > 2 else None
        if got:
            value, tab = got
            self.tables.append(
                f"static const {t} T{i}[{len(tab)}]={{"
                + ",".join(map(str, tab)) + "};")
            e = f"T{i}[{self.expr(value)}]"
        else:
            e = str(n)
            for k in reversed(range(n)):
                net = c.inputs[k]
                if net.is_const:
                    if net.const:
                        e = str(k)
                    continue
                e = f"({self._arm(net)}?{k}:{e})"
        if en is not None:
            e = f"({en}?{e}:{n})"
        return [f"{t} p{i}={e};"]

    def _arm(self, net):
        if net.cell in self.elided:
            return "(" + self._match(self.cells[net.cell]) + ")"
        return self.expr(net)

    def _assign(self, i, a, w):
        aw = len(a.value)
        if a.start == 0 and aw == w:
            return f"c{i}={self.expr(a.value)};"
        t = wtype(w)
        keep = mask(w) & ~(mask(aw) << a.start)
        return (f"c{i}=(c{i}&{lit(keep, w)})|(({t}){self.expr(a.value)}"
                f"<<{a.start});")

    def _alist(self, i, c, w):
        lines = [f"{ctype(w)} c{i}={self.expr(c.default)};"]
        k, asg = 0, c.assignments
        while k < len(asg):
            a = asg[k]
            if a.cond.is_const:
                if a.cond.const:
                    lines.append(self._assign(i, a, w))
                k += 1
                continue
            pm = a.cond.cell
            if isinstance(self.cells[pm], nir.PriorityMatch):
                j = k
                arms = {}
                last = -1
                while (j < len(asg) and not asg[j].cond.is_const
                       and asg[j].cond.cell == pm):
                    arms.setdefault(asg[j].cond.bit, []).append(
                        self._assign(i, asg[j], w))
                    j += 1
                if len(arms) > 3:
                    # arms with identical bodies share a case label group
                    groups = {}
                    for b, body in arms.items():
                        groups.setdefault("".join(body), []).append(b)
                    s = f"switch(p{pm}){{"
                    for body, bs in groups.items():
                        s += "".join(f"case {b}:" for b in bs)
                        s += body + "break;"
                    s += "default:break;}"
                    lines.append(s)
                else:
                    for b, body in arms.items():
                        lines.append(f"if(p{pm}=={b}){{{''.join(body)}}}")
                k = j
                continue
            lines.append(f"if({self.expr(a.cond)}){{{self._assign(i, a, w)}}}")
            k += 1
        return lines

    def _emit_split(self, i, b):
        c = self.cells[i]
        if isinstance(c, nir.Operator):
            o = c.operator
            if o == "~":
                return [f"uint8_t c{i}_{b}=!({self.expr(c.inputs[0][b])});"]
            if o == "m":
                return [f"uint8_t c{i}_{b}=({self.expr(c.inputs[0])})?"
                        f"({self.expr(c.inputs[1][b])}):"
                        f"({self.expr(c.inputs[2][b])});"]
            return [f"uint8_t c{i}_{b}=({self.expr(c.inputs[0][b])}){o}"
                    f"({self.expr(c.inputs[1][b])});"]
        lines = [f"uint8_t c{i}_{b}={self.expr(c.default[b])};"]
        for a in c.assignments:
            if a.start <= b < a.start + len(a.value):
                lines.append(f"if({self.expr(a.cond)})c{i}_{b}="
                             f"{self.expr(a.value[b - a.start])};")
        return lines

    def _memref(self, m):
        return f"s.m{m}" if m in self.mutable else f"M{m}"

    # -- top ---------------------------------------------------------------
    def cone(self):
        """Cells some output depends on, now or in a later cycle."""
        writers = {}
        for i, c in enumerate(self.cells):
            if isinstance(c, nir.SyncWritePort):
                writers.setdefault(c.memory, []).append(i)
        todo = [n.cell for v in self.top.ports_o.values() for n in v
                if not n.is_const]
        live = {0}
        while todo:
            i = todo.pop()
            if i in live:
                continue
            live.add(i)
            c = self.cells[i]
            todo += [n.cell for n in c.input_nets() if not n.is_const]
            if isinstance(c, (nir.AsyncReadPort, nir.SyncReadPort)):
                todo += [c.memory] + writers.get(c.memory, [])
        return live

    def compile(self):
        self.live = self.cone()
        cells = [c if i in self.live else _DEAD
                 for i, c in enumerate(self.cells)]
        self.cells = cells
        self.mutable = {c.memory for c in cells
                        if isinstance(c, nir.SyncWritePort)}
        # Matches used only as arms of priority matches are emitted inline.
        users = {}
        for i, c in enumerate(cells):
            if i == 0:
                nets = {n for v in c.ports_o.values() for n in v}
            else:
                nets = c.input_nets()
            for n in nets:
                if not n.is_const and n.cell != 0:
                    users.setdefault(n.cell, set()).add(i)
        self.elided = {i for i, c in enumerate(cells)
                       if isinstance(c, nir.Matches) and users.get(i)
                       and all(isinstance(cells[u], nir.PriorityMatch)
                               for u in users[i])}
        clks = set()
        for c in cells:
            if isinstance(c, (nir.FlipFlop, nir.SyncWritePort,
                              nir.SyncReadPort)):
                clks.add((c.clk, c.clk_edge))
                if isinstance(c, nir.FlipFlop):
                    assert c.arst.is_const and c.arst.const == 0, "async reset"
        assert len(clks) <= 1, f"expected one clock, got {clks}"
        clkname = None      # a purely combinational design
        for clk, edge in clks:
            clkname = self.inbits[clk.bit][0]
        order = self.order()

        o = []
        o.append(f"namespace {self.ns} {{")
        # state
        st, init = [], []
        self.regs = []
        for i, c in enumerate(cells):
            if isinstance(c, nir.Memory) and i in self.mutable:
                st.append((c.width, f"{ctype(c.width)} m{i}[{c.depth}];"))
                rows = list(c.init) + [0] * (c.depth - len(c.init))
                for r, v in enumerate(rows):
                    if v:
                        init.append(f"s.m{i}[{r}]={lit(v, c.width)};")
            elif isinstance(c, nir.FlipFlop):
                w = self.width[i]
                st.append((w, f"{ctype(w)} r{i};"))
                if c.init:
                    init.append(f"s.r{i}={lit(c.init, w)};")
                self.regs.append(i)
            elif isinstance(c, nir.SyncReadPort):
                w = self.width[i]
                st.append((w, f"{ctype(w)} r{i};"))
                self.regs.append(i)
        st.sort(key=lambda x: -x[0])
        o.append("struct State{" + "".join(x[1] for x in st) + "};")
        o.append("struct In{" + "".join(
            f"{ctype(w)} {name};" for name, (_, w) in
            self.top.ports_i.items() if name != clkname) + "};")
        o.append("struct Out{" + "".join(
            f"{ctype(len(v))} {name};" for name, v in
            self.top.ports_o.items()) + "};")
        o.append("static inline void por(State&s){memset(&s,0,sizeof s);"
                 + "".join(init) + "}")
        body = []
        for node in order:
            body += self.emit_cell(node)
        for name, v in self.top.ports_o.items():
            body.append(f"o.{name}={self.expr(v)};")
        # clock edge
        edge_lines, late = [], []
        for i, c in enumerate(cells):
            if isinstance(c, nir.FlipFlop):
                edge_lines.append(f"auto n{i}={self.expr(c.data)};")
                late.append(f"s.r{i}=n{i};")
        for i, c in enumerate(cells):
            if not isinstance(c, nir.SyncWritePort):
                continue
            m = cells[c.memory]
            edge_lines += [
                f"uint32_t wa{i}={self.expr(c.addr)};",
                f"{wtype(m.width)} wd{i}={self.expr(c.data)};",
                f"{wtype(m.width)} we{i}={self.expr(c.en)};"]
        for i, c in enumerate(cells):
            if not isinstance(c, nir.SyncReadPort):
                continue
            m = cells[c.memory]
            t = wtype(m.width)
            edge_lines.append(f"uint32_t ra{i}={self.expr(c.addr)};")
            e = f"(ra{i}<{m.depth}u?({t}){self._memref(c.memory)}[ra{i}]:0)"
            en = c.en
            body_l = f"{t} v{i}={e};"
            for p in c.transparent_for:
                body_l += (f"if(wa{p}==ra{i})v{i}=(v{i}&~we{p})|"
                           f"(wd{p}&we{p});")
            edge_lines.append(body_l)
            if en.is_const and en.const:
                late.append(f"s.r{i}=v{i};")
            elif not en.is_const:
                edge_lines.append(f"bool e{i}={self.expr(en)};")
                late.append(f"if(e{i})s.r{i}=v{i};")
        for i, c in enumerate(cells):
            if not isinstance(c, nir.SyncWritePort):
                continue
            m = cells[c.memory]
            late.append(
                f"if(we{i}&&wa{i}<{m.depth}u)s.m{c.memory}[wa{i}]="
                f"(s.m{c.memory}[wa{i}]&~we{i})|(wd{i}&we{i});")
        for i, c in enumerate(cells):
            if isinstance(c, nir.Memory) and i not in self.mutable:
                rows = list(c.init) + [0] * (c.depth - len(c.init))
                o.append(f"static const {ctype(c.width)} M{i}[{c.depth}]={{"
                         + ",".join(lit(v, c.width) for v in rows) + "};")
        o += self.tables
        o.append("template<bool COMMIT>static inline "
                 "__attribute__((always_inline)) void step(State&s,"
                 "const In&in,Out&o){")
        o += body
        o.append("if(!COMMIT)return;")
        o += edge_lines + late
        o.append("}")
        o.append(f"static const char*const NAMES[]={{"
                 + "".join(f'"{self._regname(i)}",' for i in self.regs)
                 + "nullptr};")
        o.append("}")
        return "\n".join(o)

    def _regname(self, i):
        for mod in self.nl.modules:
            pass
        for sig, val in self.nl.signals.items():
            if len(val) and not val[0].is_const and val[0].cell == i:
                return sig.name
        return f"r{i}"


HEADER = """// generated from the design's netlist; do not edit
#pragma once
#include <cstdint>
#include <cstring>
typedef unsigned __int128 u128;
#ifndef NIR_FDIV
#define NIR_FDIV
template <class A, class B> static inline A fdiv(A x, B y) {
  return y ? (A)(x / y - ((x % y != 0) && ((x < 0) != (y < 0)))) : (A)0; }
template <class A, class B> static inline A fmod_(A x, B y) {
  return y ? (A)(x - fdiv(x, y) * y) : (A)0; }
#endif
"""


def netlist_for(elaboratable, ports):
    """ports: name -> (Signal-like value). Direction is inferred."""
    frag = Fragment.get(elaboratable, None)
    return build_netlist(frag, ports=ports)


def emit(elaboratable, ports, ns):
    nl = netlist_for(elaboratable, ports)
    return Compiler(nl, ns).compile()
