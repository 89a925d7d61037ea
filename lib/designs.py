"""The designs the explorers run: each is elaborated from /repo's working tree
and turned into a C++ transition relation plus a traits struct."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SENTINEL_REPO", "/repo")
for p in (os.path.join(REPO, "src"), os.path.join(HERE, "stubs"), HERE):
    if p not in sys.path:
        sys.path.insert(0, p)
sys.dont_write_bytecode = True

BUS = ("adr", "dat_w", "dat_r", "sel", "cyc", "stb", "we", "ack")


def ports_of(sig_owner):
    ports = {}
    for path, _, value in sig_owner.signature.flatten(sig_owner):
        ports["__".join(map(str, path))] = value
    return ports


def make(kind):
    """-> (elaboratable, {port: signal}, list of extra output names, has_en)"""
    from amaranth import Signal, Module
    from amaranth.hdl import ResetInserter, EnableInserter, ClockDomain
    if kind == "top":
        from sentinel.top import Top
        t = Top()
        p = ports_of(t)
        return wrap_rst(t), p, [], False
    if kind == "topf":          # formal=True, bus view only
        from sentinel.top import Top
        t = Top(formal=True)
        p = {k: v for k, v in ports_of(t).items() if not k.startswith("rvfi")}
        return wrap_rst(t), p, [], False
    if kind == "formal":
        from sentinel.formal import FormalTop
        t = FormalTop()
        p = ports_of(t)
        extra = [k for k in p if k.startswith("rvfi")]
        return wrap_rst(t), p, extra, False
    if kind == "pair":          # the three builds, side by side on one bus
        from sentinel.top import Top
        from sentinel.formal import FormalTop
        m = Module()
        a, b, c = Top(), Top(formal=True), FormalTop()
        m.submodules.a, m.submodules.b, m.submodules.c = a, b, c
        p, extra = ports_of(a), []
        for pre, t in (("f", b), ("h", c)):
            q = ports_of(t)
            for n in ("irq", "bus__ack", "bus__dat_r"):
                m.d.comb += q[n].eq(p[n])
            for n in ("cyc", "stb", "we", "adr", "sel", "dat_w"):
                p[f"{pre}_{n}"] = Signal(len(q[f"bus__{n}"]), name=f"{pre}_{n}")
                m.d.comb += p[f"{pre}_{n}"].eq(q[f"bus__{n}"])
                extra.append(f"{pre}_{n}")
        return m, p, extra, False
    if kind == "en":            # the FlowModifiedTop shape
        from sentinel.top import Top
        t = Top()
        en, rst = Signal(init=1, name="en"), Signal(name="rsti")
        m = Module()
        m.submodules.dut = ResetInserter(rst)(EnableInserter(en)(t))
        p = ports_of(t)
        p["en"] = en
        p["rsti"] = rst
        return wrap_rst(m), p, [], True
    raise KeyError(kind)


def wrap_rst(e):
    return e


OUTS = {"bus__" + k for k in ("cyc", "stb", "we", "adr", "sel", "dat_w")}


def emit(kind):
    import nir2cpp
    e, p, extra, has_en = make(kind)
    # an output nothing drives is a constant, not an input of the netlist
    from amaranth.hdl._ir import PortDirection
    out = PortDirection.Output
    ports = {k: (v, out if k in OUTS or k.startswith("rvfi__") else None)
             for k, v in p.items()}
    body = nir2cpp.emit(e, ports, "d_" + kind)
    rst = "rsti" if kind == "en" else "rst"
    o = [nir2cpp.HEADER, '#include "core.h"\n', '#include "rvaux.h"\n' if kind == "formal" else "", body, "\n"]
    n = "d_" + kind
    ex = " ".join(f"v.push_back((u64)o.{k});" for k in extra)
    o.append(f"""
struct T_{kind} {{
  typedef {n}::State State; typedef {n}::In In; typedef {n}::Out Out;
  static constexpr const char* NAME = "{kind}";
  typedef {"RvAux" if kind == "formal" else "NoAux"} Aux;
  static constexpr bool HAS_EN = {str(has_en).lower()};
  static void por(State& s) {{ {n}::por(s); }}
  template <bool C> static void step(State& s, const In& i, Out& o) {{ {n}::step<C>(s, i, o); }}
  static void set(In& i, bool irq, bool ack, u32 dat, bool rst, bool en) {{
    i.irq = irq; i.bus__ack = ack; i.bus__dat_r = dat; i.{rst} = rst; {"i.en = en;" if has_en else "(void)en;"}
  }}
  static void get(const In& i, Cyc& c) {{
    c.irq = i.irq; c.ack = i.bus__ack; c.dat_r = i.bus__dat_r; c.rst = i.{rst}; c.en = {"i.en" if has_en else "1"};
  }}
  static void extra(const Out& o, std::vector<u64>& v) {{ {ex} }}
  static u32 adr(const Out& o) {{ return o.bus__adr; }}
  static u32 dat_w(const Out& o) {{ return o.bus__dat_w; }}
  static u8 sel(const Out& o) {{ return o.bus__sel; }}
  static u8 cyc(const Out& o) {{ return o.bus__cyc; }}
  static u8 stb(const Out& o) {{ return o.bus__stb; }}
  static u8 we(const Out& o) {{ return o.bus__we; }}
}};
""")
    return "".join(o)


if __name__ == "__main__":
    with open(sys.argv[2], "w") as f:
        f.write(emit(sys.argv[1]))
