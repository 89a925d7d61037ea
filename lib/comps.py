"""Stand-alone components, each elaborated from /repo's working tree and turned
into a C++ transition relation over flat vectors of inputs and outputs.

comps.py KIND[,KIND...] OUT.h

Kinds: alu_<width>; ctl_<n> (Control running generated microprogram n); and
GENERIC below, with every port of the component's signature; and the
peripherals of examples/attosoc.py: wbmem_<words>, wbleds_0, wbtim_0,
uart_<divisor>, wbser_<divisor>, and csrleds_<d>, csrtim_<d>, csrser_<d> on a
CSR bridge whose write strobe comes d cycles after the request."""
import io
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import designs  # noqa: F401  (sets the import path up)

CTL_PORTS = {   # port of Control -> microcode field that drives it
    "alu__route__a_src": "a_src", "alu__route__b_src": "b_src",
    "alu__route__latch_a": "latch_a", "alu__route__latch_b": "latch_b",
    "alu__ctrl__op": "alu_op", "alu__ctrl__imod": "alu_i_mod",
    "alu__ctrl__omod": "alu_o_mod",
    "gp__route__reg_r_sel": "reg_r_sel", "gp__route__reg_w_sel": "reg_w_sel",
    "gp__ctrl__reg_read": "reg_read", "gp__ctrl__reg_write": "reg_write",
    "pc__action": "pc_action",
    "csr__route__csr_sel": "csr_sel", "csr__route__target": "target",
    "csr__ctrl__op": "csr_op", "csr__ctrl__exception": "except_ctl",
    "mem__req": "mem_req", "mem__sel": "mem_sel", "mem__write": "write_mem",
    "mem__insn_fetch": "insn_fetch", "mem__extend": "mem_extend",
    "mem__latch_data": "latch_data", "mem__latch_adr": "latch_adr",
    "exception__mem_sel": "mem_sel", "exception__except_ctl": "except_ctl",
}
CTL_IN = ("alu__ctrl__zero", "exception__exception", "mem__valid",
          "decode__requested_op", "decode__opcode")
SEQ = ("target", "jmp_type", "cond_test", "invert_test")


def mix(*x):
    h = 0x9E3779B97F4A7C15
    for v in x:
        h = ((h ^ (v + 0x1234567)) * 0xD6E8FEB86659FD93) & (2**64 - 1)
        h ^= h >> 29
    return h


def program(n):
    """Microprogram n: (source text, [{field: value} or None per address])."""
    from amaranth import Shape
    from sentinel.ucodefields import JmpType, CondTest
    from sentinel.ucoderom import UCodeROM
    fmap = UCodeROM.field_map
    names = list(fmap)
    if n % 3 == 1:
        names.reverse()
    elif n % 3 == 2:
        names.sort(key=lambda f: mix(n, sum(map(ord, f)), len(f)))
    vals = {}
    decl = []
    for f in names:
        s = fmap[f]
        if isinstance(s, type):
            seen = {}
            for k, m in s.__members__.items():
                seen[k.lower()] = m.value
            vals[f] = sorted(set(seen.values()))
            e = "; ".join(f"{k} = {v}" for k, v in seen.items())
            # the default (what unnamed fields get) varies too
            first = list(seen)[mix(n, len(f)) % len(seen) if n > 2 else 0]
            d = seen[first]
            decl.append((f, f"enum {{ {e}; }}, default {first}", d,
                         {v: k for k, v in reversed(seen.items())}))
        else:
            w = Shape.cast(s).width
            vals[f] = list(range(1 << w))
            decl.append((f, "bool, default 0" if w == 1 else
                         f"width {w}, default 0", 0, None))
    jt = [JmpType.CONT.value, JmpType.MAP.value, JmpType.DIRECT.value,
          JmpType.DIRECT_ZERO.value]
    ct = [c.value for c in CondTest]
    words = []
    for a in range(256):
        if n % 4 == 3 and mix(n, a) % 8 == 0 and a != 2:
            words.append(None)          # an address the source leaves empty
            continue
        k = mix(n, a, 7)
        i = a if n == 0 else (a * 5 + 3 * n) & 255 if n % 2 else k & 255
        w = {"jmp_type": jt[i & 3], "cond_test": ct[i >> 2 & 3],
             "invert_test": i >> 4 & 1}
        w["target"] = [a + 1 & 255, 255 - a, int(f"{a:08b}"[::-1], 2),
                       k >> 8 & 255, a ^ 1 << (k >> 16 & 7), 0][
                           (n + (k >> 24)) % 6]
        for j, f in enumerate(names):
            if f in SEQ:
                continue
            v = vals[f]
            if n == 1:      # one field away from zero at a time
                w[f] = v[-1] if (a % len(names)) == j else v[0]
            elif n == 2:    # ... and all but one
                w[f] = v[0] if (a % len(names)) == j else v[-1]
            else:
                w[f] = v[mix(n, a, j) % len(v)]
        words.append(w)
    src = ["space block_ram: width 64, size 256;\nspace block_ram;\norigin 0;\n",
           "fields block_ram: {\n"]
    src += [f"  {f}: {d};\n" for f, d, _, _ in decl]
    src.append("};\n")
    gap = True
    show = {f: s for f, _, _, s in decl}
    dflt = {f: d for f, _, d, _ in decl}
    for a, w in enumerate(words):
        if w is None:
            gap = True
            continue
        if gap:
            src.append(f"origin {a};\n")
            gap = False
        ops = [f"{f} => {show[f][v] if show[f] else v}" for f, v in w.items()
               if v != dflt[f] or mix(n, a, len(f)) & 1]
        src.append((", ".join(ops) or "target => 0") + ";\n")
    zero = {f: 0 for f in names}
    return "".join(src), [w or zero for w in words]


GENERIC = {
    "dp": "sentinel.datapath.DataPath", "amux": "sentinel.alu.ASrcMux",
    "bmux": "sentinel.alu.BSrcMux", "adra": "sentinel.align.AddressAlign",
    "rda": "sentinel.align.ReadDataAlign",
    "wda": "sentinel.align.WriteDataAlign",
    "dsrc": "sentinel.datapath.DataPathSrcMux",
    "exc": "sentinel.exception.ExceptionRouter",
    "dec": "sentinel.decode.Decode",
}
SOC = {
    "wbmem": "WBMemory", "wbleds": "WBLeds", "wbtim": "WBTimer",
    "uart": "UART", "wbser": "WBSerial", "csrleds": "CSRLeds",
    "csrtim": "CSRTimer", "csrser": "CSRSerial",
}
UART_IO = (("tx_data", "tx_rdy", "rx_i", "rx_ack"),
           ("tx_o", "tx_ack", "rx_data", "rx_err", "rx_ovf", "rx_rdy"))
ENUMS = {   # explorer -> enumerations it names
    "alu": ("OpType", "ALUIMod", "ALUOMod"), "ctl": ("JmpType", "CondTest"),
    "dp": ("PcAction", "CSROp", "ExceptCtl"),
    "amux": ("ASrc", "BSrc", "MemSel", "MemExtend", "RegRSel", "RegWSel",
             "CSRSel"),
    "exc": ("ExceptCtl", "MemSel"), "dec": (),
}


def kinds_of(names):
    """Is this the name of a component design?"""
    return names.split("_")[0] in ("alu", "ctl", "views", "names", *GENERIC,
                                   *SOC)


class Gone(Exception):
    """The tree has no such class or port (any more)."""


def find(path):
    """The class, wherever in the package it lives now."""
    import importlib
    import pkgutil
    mod, cls = path.rsplit(".", 1)
    import sentinel
    for m in (mod, *(f"sentinel.{x.name}" for x in
                     pkgutil.iter_modules(sentinel.__path__))):
        try:
            return getattr(importlib.import_module(m), cls)
        except (ImportError, AttributeError):
            continue
    raise Gone(path)


def peripheral(k, n):
    sys.path.append(os.path.join(designs.REPO, "examples"))
    import attosoc
    sys.path.pop()
    if k == "uart":
        return attosoc.UART(divisor=n)
    if k == "wbmem":
        e = attosoc.WBMemory(num_bytes=4 * n)
        e.init = [0x00FF00FF, 0xFF0000FF, 0x12345678][:n]
        return e
    e = getattr(attosoc, SOC[k])()
    if k.endswith("ser"):
        e.serial = attosoc.UART(divisor=n if k == "wbser" else 4)
    if k.startswith("csr"):
        e.bridge.delay = n
    return e


def spec_names():
    """{name: value the RISC-V specifications give it}"""
    d = dict(MVENDORID=0xF11, MARCHID=0xF12, MIMPID=0xF13, MHARTID=0xF14,
             MCONFIGPTR=0xF15, MSTATUS=0x300, MISA=0x301, MEDELEG=0x302,
             MIDELEG=0x303, MIE=0x304, MTVEC=0x305, MCOUNTEREN=0x306,
             MENVCFG=0x30A, MSTATUSH=0x310, MENVCFGH=0x31A,
             MCOUNTINHIBIT=0x320, MSCRATCH=0x340, MEPC=0x341, MCAUSE=0x342,
             MTVAL=0x343, MIP=0x344, MTINST=0x34A, MTVAL2=0x34B,
             MSECCFG=0x747, MSECCFGH=0x757, TSELECT=0x7A0, TDATA1=0x7A1,
             TDATA2=0x7A2, TDATA3=0x7A3, MCONTEXT=0x7A8, DCSR=0x7B0,
             DPC=0x7B1, DSCRATCH0=0x7B2, DSCRATCH1=0x7B3, MCYCLE=0xB00,
             MINSTRET=0xB02, MCYCLEH=0xB80, MINSTRETH=0xB82)
    d.update({f"PMPCFG{i}": 0x3A0 + i for i in range(16)})
    d.update({f"PMPADDR{i}": 0x3B0 + i for i in range(64)})
    for i in range(3, 32):
        d[f"MHPMCOUNTER{i}"] = 0xB00 + i
        d[f"MHPMCOUNTER{i}H"] = 0xB80 + i
        d[f"MHPMEVENT{i}"] = 0x320 + i
    d = {f"csr.MachineAddr.{k}": v for k, v in d.items()}
    for c, ks in {
            "csr.AccessMode": dict(READ_ONLY=3),
            "csr.Quadrant": dict(UNPRIVILEGED=0, SUPERVISOR=1, HYPERVISOR=2,
                                 MACHINE=3),
            "csr.MTVec.Mode": dict(DIRECT=0, VECTORED=1),
            "csr.MCause.Cause": dict(
                INSN_MISALIGNED=0, INSN_FAULT=1, ILLEGAL_INSN=2, BREAKPOINT=3,
                LOAD_MISALIGNED=4, LOAD_FAULT=5, STORE_MISALIGNED=6,
                STORE_FAULT=7, ECALL_UMODE=8, ECALL_SMODE=9, ECALL_MMODE=11,
                INSN_PAGE_FAULT=12, LOAD_PAGE_FAULT=13, STORE_PAGE_FAULT=15,
                MSOFT_INT=3, MTIMER_INT=7, MEXT_INT=11),
            "insn.OpcodeType": dict(
                LOAD=0, CUSTOM_0=2, MISC_MEM=3, OP_IMM=4, AUIPC=5, STORE=8,
                OP=12, LUI=13, BRANCH=24, JALR=25, JAL=27, SYSTEM=28),
            "insn.Insn": dict(ECALL=0x73, EBREAK=0x100073, MRET=0x30200073,
                              WFI=0x10500073),
            "insn.Insn.CSR": dict(RW=1, RS=2, RC=3, RWI=5, RSI=6, RCI=7)
            }.items():
        d.update({f"{c}.{k}": v for k, v in ks.items()})
    return d


def tap(kind):
    """A design showing what the names and views of sentinel.insn and
    sentinel.csr denote: names_0 (constants), views_0 (views of `word`)."""
    from amaranth.hdl import Module, Signal, Value
    from amaranth.lib import data
    word, outs = Signal(32, name="word"), {}
    if kind == "names_0":
        for n in spec_names():
            mod, *path = n.split(".")
            try:
                v = find("sentinel." + mod + "." + path[0])
                for p in path[1:]:
                    v = getattr(v, p)
            except (ImportError, AttributeError):
                continue            # a name gone is a name nobody can misread
            v = getattr(v, "value", v)
            s = Signal(64, name="k", init=v if v >= 0 else v % 2**64)
            outs["k_" + n.replace(".", "_")] = (s, s)
    else:
        insn = find("sentinel.insn.Insn")(word)

        def get(o, n):
            try:
                return getattr(o, n)
            except AttributeError as e:
                raise Gone(str(e)) from e
        for n in ("raw", "opcode", "rd", "funct3", "rs1", "rs2", "funct7",
                  "funct12", "sign"):
            outs[n] = get(insn, n)
        for n in "ISBUJ":
            outs["imm_" + n] = get(insn.imm, n)
        for n in ("addr", "quadrant", "access"):
            outs["csr_" + n] = get(insn.csr, n)
        for c, fs in (("MStatus", ("mie", "mpie", "mpp")),
                      ("MTVec", ("mode", "base")),
                      ("MIP", ("msip", "mtip", "meip")),
                      ("MIE", ("msie", "mtie", "meie")),
                      ("MCause", ("cause", "interrupt"))):
            v = data.View(find("sentinel.csr." + c), word)
            for f in fs:
                outs[f"{c}_{f}"] = get(v, f)
        outs = {k: (Signal(len(Value.cast(v)), name=k), v)
                for k, v in outs.items()}
    m = Module()
    for s, v in outs.values():
        if s is not v:
            m.d.comb += s.eq(v)
    return m, {"word": word}, {k: s for k, (s, _) in outs.items()}


def make(kind):
    """-> (elaboratable, {input: signal}, {output: signal})"""
    from amaranth.hdl import Value
    from amaranth.lib.wiring import In
    k, n = kind.split("_")
    if k in ("views", "names"):
        return tap(kind)
    if k == "uart":
        e = peripheral(k, int(n))
        return e, *({p: getattr(e, p) for p in ps} for ps in UART_IO)
    if k in GENERIC or k in SOC:
        if k in SOC:
            e = peripheral(k, int(n))
        else:
            e = find(GENERIC[k])()
        ins, outs = {}, {}
        for path, member, value in e.signature.flatten(e):
            (ins if member.flow is In else outs)[
                "__".join(map(str, path))] = Value.cast(value)
        return e, ins, outs
    if k == "alu":
        e = find("sentinel.alu.ALU")(int(n))
        want_i = ("a", "b", "ctrl__op", "ctrl__imod", "ctrl__omod")
        want_o = ("o", "ctrl__zero")
    else:
        e = find("sentinel.control.Control")(io.StringIO(program(int(n))[0]))
        want_i, want_o = CTL_IN, tuple(CTL_PORTS)
    ports = {}
    for path, member, value in e.signature.flatten(e):
        ports["__".join(map(str, path))] = Value.cast(value)
    if not {*want_i, *want_o} <= {*ports}:
        raise Gone(f"{k}: {sorted({*want_i, *want_o} - {*ports})}")
    return e, {p: ports[p] for p in want_i}, {p: ports[p] for p in want_o}


def emit(kind):
    import nir2cpp
    e, ins, outs = make(kind)
    nl = nir2cpp.netlist_for(e, {k: (v, None) for k, v in
                                 {**ins, **outs}.items()})
    top = nl.cells[0]
    n, k0 = "d_" + kind, kind.split("_")[0]
    body = nir2cpp.Compiler(nl, n).compile()
    st = [f"i.{k}=v[{j}];" if k in top.ports_i else ""
          for j, k in enumerate(["rst", *ins])]
    gt = [f"v[{j}]=o.{k};" if k in top.ports_o else f"v[{j}]={outs[k].init}u;"
          for j, k in enumerate(outs)]
    o = [body, f"""
struct T_{kind} {{
  typedef {n}::State State; typedef {n}::In In; typedef {n}::Out Out;
  static constexpr const char* NAME = "{kind}";
  static constexpr int NI = {1 + len(ins)}, NO = {len(outs)}, PARAM = {kind.split("_")[1]};
  enum {{ {", ".join(f"I_{k} = {j}" for j, k in enumerate(["rst", *ins]))} }};
  enum {{ {", ".join(f"O_{k} = {j}" for j, k in enumerate(outs))} }};
  static const char* oname(int k) {{ static const char* const N[] = {{ {", ".join(f'"{k}"' for k in outs)} }}; return N[k]; }}
  static void por(State& s) {{ {n}::por(s); }}
  template <bool C> static void step(State& s, const u64* iv, u64* ov) {{
    In i; memset(&i, 0, sizeof i); Out o; set(i, iv); {n}::step<C>(s, i, o); get(o, ov); }}
  static void set(In& i, const u64* v) {{ {"".join(st)} }}
  static void get(const Out& o, u64* v) {{ {"".join(gt)} }}
"""]
    if k0 == "names":
        want = {"k_" + a.replace(".", "_"): v
                for a, v in spec_names().items()}
        o.append("  static constexpr u64 WANT[] = {"
                 + ", ".join(str(want[k]) for k in outs) + "};\n")
    if kind.startswith("ctl"):
        _, words = program(int(kind.split("_")[1]))
        fs = [*CTL_PORTS.values(), "jmp_type", "cond_test", "invert_test"]
        o.append(f"  static constexpr u8 W[256][{len(fs)}] = {{" + ",".join(
            "{" + ",".join(str(w[f]) for f in fs) + "}" for w in words)
            + "};\n")
        o.append(f"  static constexpr int TARGET = {fs.index('target')};\n")
    o.append("};\n")
    return "".join(o)


def tried(kind):
    """(text, None) or (None, why this one cannot be built); the reason of a
    design the tree does not have starts with "gone"."""
    import nir2cpp
    try:
        e, ins, outs = make(kind)
        nir2cpp.netlist_for(e, {k: (v, None) for k, v in
                                {**ins, **outs}.items()})
    except Gone as e:
        return None, f"gone: {e}"
    except Exception as e:
        return None, f"{type(e).__name__}: {e}"
    return emit(kind), None


def header(kinds):
    import nir2cpp
    o = [nir2cpp.HEADER, '#include "comp.h"\n']
    import multiprocessing
    with multiprocessing.Pool(min(8, len(kinds))) as pool:
        got = pool.map(tried, kinds, 1)
    bad = {k: g[1] for k, g in zip(kinds, got) if g[1]}
    if len(bad) == len(kinds):
        if all(b.startswith("gone") for b in bad.values()):
            return "", bad
        raise RuntimeError(f"nothing elaborates: {bad[kinds[0]]}")
    kinds = [k for k in kinds if k not in bad]
    o += [g[0] for g in got if not g[1]]
    from sentinel import ucodefields
    for c in ENUMS.get(kinds[0].split("_")[0], ()):
        for m in getattr(ucodefields, c, ()):
            o.append(f"enum {{ {c}_{m.name} = {m.value} }};\n")
    if kinds[0].startswith(("dp", "dec")):
        CSRFile = find("sentinel.datapath.CSRFile")
        for c in ("MSTATUS", "MIE", "MTVEC", "MSCRATCH", "MEPC", "MCAUSE",
                  "MIP"):
            if hasattr(CSRFile, c):
                o.append(f"enum {{ CSR_{c} = {getattr(CSRFile, c)} }};\n")
    o += [f"#define HAVE_{k}\n" for k in kinds]
    o.append("#define FOR_ALL(X) " + " ".join(f"X(T_{k})" for k in kinds))
    o.append("\n")
    return "".join(o), bad


FREE = 2**64 - 1        # a row's output that is not compared


class Replayer:
    """Like conform.Replayer, for rows of [rst, inputs..., outputs...]."""

    def __init__(self, kind):
        from amaranth.sim import Simulator
        from amaranth.hdl import Module, ClockDomain
        e, ins, outs = make(kind)
        m = Module()
        m.domains.sync = cd = ClockDomain()
        m.submodules.dut = e
        self.ins = [cd.rst, *ins.values()]
        self.outs = list(outs.values())
        self.sim = Simulator(m)
        self.sim.add_clock(1e-6)
        self.trace, self.bad, self.n = None, None, 0
        self.sim.add_testbench(self.bench)

    async def bench(self, ctx):
        k = len(self.ins)
        for i, r in enumerate(self.trace or ()):
            for s, v in zip(self.ins, r):
                ctx.set(s, v)
            got = [int(ctx.get(o)) for o in self.outs]
            if any(w not in (g, FREE) for g, w in zip(got, r[k:])):
                self.bad = (i, got, r[k:])
                return
            self.n += 1
            await ctx.tick()

    def run(self, cycles):
        self.trace, self.bad = cycles, None
        self.sim.reset()
        if cycles:
            self.sim.run_until(1e-6 * (len(cycles) + 2))
        return self.bad


if __name__ == "__main__":
    text, bad = header(sys.argv[1].split(","))
    with open(sys.argv[2], "w") as f:
        f.write(text)
    with open(sys.argv[2] + ".json", "w") as f:
        json.dump(bad, f)
