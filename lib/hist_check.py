"""Construction histories: does what a constructor builds depend only on its
arguments?

hist_check.py <tier> <out.json> [workdir]

Runs every history of a bounded alphabet of constructions and conversions, each
in a forked copy of a process that has only imported the package, and compares
every design the history yields with the one a fresh process yields first: equal
netlists are the same transition system.  For those that are not equal, a pair
of C++ transition relations is written to the work directory for src/hist.cpp
to explore side by side."""
import hashlib
import io
import itertools
import json
import os
import pathlib
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import designs  # noqa: E402,F401  (sets the import path up)

ROMX = """space r: width 9, size 16;
fields r: {
 q: width 3, origin 0, default 5;
 target: width 4, origin 4, default 9;
 z: bool, origin 8, default 1;
};
origin 1;
q => 2;
target => 7, z => 0;
"""
CTLX = 7       # the generated microprogram (comps.program) Control runs


def text(src):
    return io.StringIO(src)


def b_top():
    from sentinel.top import Top
    return Top()


def b_topf():
    from sentinel.top import Top
    return Top(formal=True)


def b_harness():
    from sentinel.formal import FormalTop
    return FormalTop()


def b_rom():
    from sentinel.ucoderom import UCodeROM
    return UCodeROM()


def b_romx():
    from amaranth import unsigned
    from sentinel.ucoderom import UCodeROM
    return UCodeROM(main_file=text(ROMX), field_map={
        "q": unsigned(3), "target": unsigned(4), "z": unsigned(1)})


def on_disk(name, src):
    p = pathlib.Path(WD, name, "prog.asm")
    p.parent.mkdir(exist_ok=True)
    tmp = p.with_suffix(f".{os.getpid()}")
    tmp.write_text(src)
    tmp.rename(p)
    return p


FILEX = """space r: width 6, size 16;
fields r: {
 q: width 6, origin 0, default %d;
};
origin %d;
q => 2;
"""


def b_file1():
    from amaranth import unsigned
    from sentinel.ucoderom import UCodeROM
    return UCodeROM(main_file=on_disk("one", FILEX % (5, 3)),
                    field_map={"q": unsigned(6)})


def b_file2():      # a file of the same name elsewhere
    from amaranth import unsigned
    from sentinel.ucoderom import UCodeROM
    return UCodeROM(main_file=on_disk("two", FILEX % (9, 7)),
                    field_map={"q": unsigned(6)})


def b_mine():       # the default field map, but a program of its own
    from sentinel.ucoderom import UCodeROM
    src = UCodeROM.main_microcode_file().read_text()
    return UCodeROM(main_file=on_disk("mine", src.replace(
        "jmp_type => direct,", "jmp_type => cont,", 1)))


def b_ctl():
    from sentinel.control import Control
    return Control()


def b_ctlx():
    import comps
    from sentinel.control import Control
    return Control(text(comps.program(CTLX)[0]))


def b_alu8():
    from sentinel.alu import ALU
    return ALU(8)


def b_alu32():
    from sentinel.alu import ALU
    return ALU(32)


def b_dec():
    from sentinel.decode import Decode
    return Decode()


def b_decf():
    from sentinel.decode import Decode
    return Decode(formal=True)


def b_dp():
    from sentinel.datapath import DataPath
    return DataPath()


def b_exc():
    from sentinel.exception import ExceptionRouter
    return ExceptionRouter()


def rejected(src, **kw):
    from sentinel.ucoderom import UCodeROM
    try:
        UCodeROM(main_file=text(src), **kw)
    except ValueError:
        return
    raise AssertionError("a bad microcode source was accepted")


def e_unknown():    # rejected: a field the map lacks
    rejected(ROMX)


def e_width():      # rejected: wrong width
    from amaranth import unsigned
    rejected(ROMX, field_map={"q": unsigned(3), "target": unsigned(8),
                              "z": unsigned(1)})


def e_gen(*flags):
    import contextlib
    import tempfile
    import sentinel.gen as g
    with tempfile.TemporaryDirectory() as d:
        old, sys.argv = sys.argv, ["gen", "-n", "other", "-o",
                                   os.path.join(d, "o.v"), *flags]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                g.generate()
        finally:
            sys.argv = old


class Duo:
    """Two cores in one design, nothing in common but the clock."""
    def __init__(self):
        from sentinel.top import Top
        self.cores = Top(), Top()

    def elaborate(self, platform):
        from amaranth import Module
        m = Module()
        m.submodules.c0, m.submodules.c1 = self.cores
        return m

    def ports(self):
        ins, outs = {}, {}
        for n, c in enumerate(self.cores):
            i, o = ports(c)
            ins.update({f"{k}__{n}": v for k, v in i.items()})
            outs.update({f"{k}__{n}": v for k, v in o.items()})
        return ins, outs


def b_duo():
    from amaranth.hdl import Elaboratable
    return type("Duo", (Duo, Elaboratable), {})()


BUILD = {k[2:]: f for k, f in list(globals().items()) if k.startswith("b_")}
EVENT = {"unknown": e_unknown, "width": e_width, "gen": e_gen,
         "genf": lambda: e_gen("-f")}
LIGHT = ("rom", "romx", "ctlx", "alu8", "file1", "mine", "decf", "unknown",
         "width")
WD = "."


def ports(e):
    from amaranth.hdl import Value
    from amaranth.lib.wiring import In
    if isinstance(e, Duo):
        return e.ports()
    ins, outs = {}, {}
    for path, member, value in e.signature.flatten(e):
        (ins if member.flow is In else outs)[
            "__".join(map(str, path))] = Value.cast(value)
    return ins, outs


def compiled(e):
    """(digest, C++ of the transition relation)"""
    import nir2cpp
    ins, outs = ports(e)
    nl = nir2cpp.netlist_for(e, {k: (v, None) for k, v in
                                 {**ins, **outs}.items()})
    body = nir2cpp.Compiler(nl, "NAMESPACE").compile()
    top = nl.cells[0]
    st = [f"i.{k}=v[{j}];" if k in top.ports_i else ""
          for j, k in enumerate(["rst", *ins])]
    gt = [f"v[{j}]=o.{k};" if k in top.ports_o else f"v[{j}]={outs[k].init}u;"
          for j, k in enumerate(outs)]
    core = {*ins} >= {"irq", "bus__ack", "bus__dat_r"}
    iface = json.dumps([[(k, len(v)) for k, v in d.items()]
                        for d in (ins, outs)])
    src = body + f"""
struct T_NAMESPACE {{
  typedef NAMESPACE::State State;
  static constexpr int NI = {1 + len(ins)}, NO = {len(outs)};
  static constexpr bool CORE = {str(core).lower()};
  static const char* oname(int k) {{ static const char* const N[] = {{ {", ".join(f'"{k}"' for k in outs) or '""'} }}; return N[k]; }}
  static const char* iname(int k) {{ static const char* const N[] = {{ {", ".join(f'"{k}"' for k in ["rst", *ins])} }}; return N[k]; }}
  static int iwidth(int k) {{ static const int N[] = {{ {", ".join(str(len(v)) for v in [[0], *ins.values()])} }}; return N[k]; }}
  static void por(State& s) {{ NAMESPACE::por(s); }}
  static void step(State& s, const u64* v0, u64* o0) {{
    NAMESPACE::In i; memset((void*)&i, 0, sizeof i); NAMESPACE::Out o;
    {{ auto v = v0; {"".join(st)} }} NAMESPACE::step<true>(s, i, o); {{ auto v = o0; {"".join(gt)} }} }}
}};
"""
    return hashlib.sha256((iface + src).encode()).hexdigest(), src, iface


def forked(f, *a):
    """f(*a) in a forked child -> its JSON result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = f(*a)
        except BaseException:
            out = {"crash": traceback.format_exc()[-1500:]}
        with os.fdopen(w, "w") as fp:
            json.dump(out, fp)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as fp:
        t = fp.read()
    os.waitpid(pid, 0)
    return json.loads(t) if t else {"crash": "the process died"}


def fresh(kind):
    d, src, iface = compiled(BUILD[kind]())
    return {"digest": d, "src": src, "iface": iface}


def judge(kind, e, want):
    d, src, iface = compiled(e)
    if d == want[kind]["digest"]:
        return None
    return {"kind": kind, "digest": d, "src": src, "iface": iface}


def play(hist, mode, want):
    """One history; mode: convert each design at once (now), all at the end in
    order of construction (end), or in the opposite order (back)."""
    built, res, n = [], [], 0
    for ev in hist:
        try:
            if ev in BUILD:
                e = BUILD[ev]()
                if mode == "now":
                    n += 1
                    res.append(judge(ev, e, want))
                else:
                    built.append((ev, e))
            else:
                EVENT[ev]()
        except Exception as x:
            return {"n": n, "raised": f"{ev}: {type(x).__name__}: {x}"}
    for ev, e in (built if mode == "end" else built[::-1]):
        n += 1
        try:
            res.append(judge(ev, e, want))
        except Exception as x:
            return {"n": n, "raised": f"{ev}: {type(x).__name__}: {x}"}
    return {"n": n, "diff": [r for r in res if r]}


def histories(tier, have):
    b = [k for k in BUILD if k in have and k != "duo"]
    ev = [*b, *(k for k in EVENT if k in have)]
    if "duo" in have:
        for k in ev:
            yield (k, "duo"), "now"
    for h in itertools.product(ev, repeat=2):
        if h[1] not in BUILD:
            continue
        yield h, "now"
        if h[0] in BUILD:
            yield h, "end"
            yield h, "back"
    light = [k for k in LIGHT if k in have]
    last = b if tier == "thorough" else [k for k in (
        "top", "rom", "file2", "alu32") if k in b]
    for h in itertools.product(light, repeat=2):
        for k in last:
            yield (*h, k), "now"
            if tier == "thorough":
                yield (*h, k), "end"
                yield (*h, k), "back"
    if tier == "thorough":
        for h in itertools.product(light, repeat=3):
            for k in ("top", "rom"):
                yield (*h, k), "now"
    for k in b:     # many of the same
        yield (k,) * 6, "end"


def work(job):
    i, (h, mode) = job
    return i, forked(play, h, mode, WANT)


WANT = {}


def quiet():
    import warnings
    warnings.simplefilter("ignore")
    sys.stderr = open(os.devnull, "w")


def main():
    import multiprocessing as mp
    global WD
    tier, out = sys.argv[1:3]
    WD = wd = os.path.dirname(os.path.abspath(out))
    quiet()
    import amaranth.back.verilog  # noqa: F401
    import amaranth.sim  # noqa: F401
    gone = {}
    with mp.get_context("fork").Pool(8) as pool:
        for k, r in zip(BUILD, pool.map(fresh_job, BUILD, 1)):
            if "crash" in r:
                gone[k] = r["crash"]
            else:
                WANT[k] = r
        for k, r in zip(EVENT, pool.map(event_job, EVENT, 1)):
            if "crash" in r:
                gone[k] = r["crash"]
    have = [k for k in (*BUILD, *EVENT) if k not in gone]
    jobs = list(enumerate(histories(tier, have)))
    with mp.get_context("fork").Pool(8) as pool:
        res = dict(pool.imap_unordered(work, jobs, 4))
    bad, pairs, ndesign, states = [], {}, 0, 0
    for i, (h, mode) in jobs:
        r = res[i]
        name = f"{' '.join(h)} [{mode}]"
        ndesign += r.get("n", 0)
        if "crash" in r or "raised" in r:
            bad.append({"src": name, "bad": f"construction history {name}: "
                        + (r.get("raised") or r["crash"])})
            continue
        for d in r["diff"]:
            if d["iface"] != WANT[d["kind"]]["iface"]:
                bad.append({"src": name, "bad": f"construction history {name}:"
                            f" {d['kind']} has other ports"})
            elif (d["kind"], d["digest"]) not in pairs:
                pairs[d["kind"], d["digest"]] = (name, d["src"])
    todo = []
    for j, ((k, _), (name, src)) in enumerate(list(pairs.items())[:24]):
        import nir2cpp
        with open(os.path.join(wd, f"hist_{j}.h"), "w") as f:
            f.write(nir2cpp.HEADER + '#include "comp.h"\n'
                    + WANT[k]["src"].replace("NAMESPACE", "h_a")
                    + src.replace("NAMESPACE", "h_b"))
        todo.append({"header": f"hist_{j}.h", "kind": k, "history": name})
    if "duo" in gone and "top" in WANT:
        bad.append({"src": "top+top", "bad": "two cores in one design: "
                    + gone["duo"].strip().splitlines()[-1]})
    elif "top" in WANT:
        import nir2cpp
        with open(os.path.join(wd, "duo.h"), "w") as f:
            f.write(nir2cpp.HEADER + '#include "comp.h"\n'
                    + WANT["duo"]["src"].replace("NAMESPACE", "h_a")
                    + WANT["top"]["src"].replace("NAMESPACE", "h_b"))
    bad.sort(key=lambda b: (len(b["src"]), b["src"]))
    json.dump({"evaluations": len(jobs), "nontrivial": sum(
        len(h) > 1 and res[i].get("n", 0) > 0 for i, (h, _) in jobs),
        "designs_compared": ndesign, "not_in_this_tree": gone,
        "netlists_that_differed": len(pairs), "products": todo, "duo": "duo" in WANT and "top" in WANT,
        "samples": [f"{' '.join(h)} [{m}]" for _, (h, m) in
                    jobs[:: max(1, len(jobs) // 4)]][:5],
        "bad": bad[:10], "nbad": len(bad)}, open(out, "w"))


def fresh_job(k):
    return forked(fresh, k)


def event_job(k):
    return forked(lambda: EVENT[k]() or {})


if __name__ == "__main__":
    main()
