"""C19: every way of running the Verilog generator; what it wrote is parsed,
its interface compared with the Python design's, and one product design (model
of the Python design x the Verilog's own transition relation, compiled by
yosys' cxxrtl back end) is written for every behaviour-distinct text.

vlog.py <outdir> <tier> -> outdir/vlog.json, outdir/dut_v<N>.h"""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import designs  # noqa: E402

REPO = designs.REPO
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1",
           PYTHONPATH=f"{REPO}/src:{HERE}/stubs")
LONG = "endmodule // left over from an earlier, longer run\n" * 200000


def expected(f):
    """{port: (direction, width)} of the Python design."""
    from amaranth.hdl import Value
    from amaranth.lib.wiring import Flow
    if f:
        from sentinel.formal import FormalTop as T
    else:
        from sentinel.top import Top as T
    t = T()
    r = {"clk": ("input", 1), "rst": ("input", 1)}
    for path, mem, value in t.signature.flatten(t):
        r["__".join(map(str, path))] = (
            "output" if mem.flow == Flow.Out else "input",
            len(Value.cast(value)))
    return r


def cases(tier):
    names = [None, "cpu", "Sentinel_2", "alu", "top", "sentinel",
             "my-core", "9lives", "clk", "datapath", "cpu.alu"]
    if tier == "thorough":
        names += ["control", "_", "x" * 70, "bus__adr", "irq", "a$b", "__",
                  "module", "core[0]"]
    r = []
    for entry in ("main", "pdm"):
        r.append((entry, []))
        for f in (False, True):
            for n in names:
                for o in ("file", "-", None, "old"):
                    if not f and n is None and o is None:
                        continue
                    if tier != "thorough" and entry == "pdm" and \
                            (n not in (None, "cpu") or o == "old"):
                        continue
                    if tier != "thorough" and o == "old" and n != "cpu":
                        continue
                    if tier != "thorough" and o is None and n not in (
                            None, "cpu", "my-core"):
                        continue
                    a = []
                    if o:
                        a += ["-o", "OUT" if o in ("file", "old") else "-"]
                    if n is not None:
                        a += ["-n", n]
                    if f:
                        a += ["-f"]
                    r.append((entry, a, o == "old"))
    return [c if len(c) == 3 else (*c, False) for c in r]


def generate(i, case, outdir):
    entry, args, old = case
    path = os.path.join(outdir, f"g{i}.v")
    if old:
        with open(path, "w") as f:
            f.write(LONG)
    a = [path if x == "OUT" else x for x in args]
    if entry == "main":
        cmd = [sys.executable, "-m", "sentinel.gen", *a]
    else:   # what the pdm "call" entry point does
        cmd = [sys.executable, "-c", "import sys; sys.argv[0] = 'gen'; "
               "import sentinel.gen as g; sys.exit(g.generate())", *a]
    r = subprocess.run(cmd, env=ENV, cwd=outdir, capture_output=True,
                       text=True, timeout=300)
    if r.returncode:
        return None, f"exit {r.returncode}: {r.stderr[-300:]}"
    if "OUT" in args:
        if not os.path.exists(path):
            return None, "the output file was not written"
        if r.stdout.strip():
            return None, "wrote to standard output although -o names a file"
        return open(path).read(), None
    return r.stdout, None


def strip(text):
    """The text without source locations and the tool's header."""
    text = re.sub(r'\(\* src = "[^"]*" \*\)', "", text)
    return re.sub(r"/\*.*?\*/", "", text, flags=re.S)


def yosys_sub(script, cwd):
    r = subprocess.run([sys.executable, "-c", "import sys; from yowasp_yosys "
                        "import run_yosys; sys.exit(run_yosys(['-q','-p',"
                        "sys.argv[1]]))", script], env=ENV, cwd=cwd,
                       capture_output=True, text=True, timeout=600)
    return r.returncode, r.stderr


def mangle(n):
    o = "p_"
    for ch in n:
        if ch == "_":
            o += "__"
        elif ch.isalnum():
            o += ch
        else:
            o += f"_{ord(ch):x}_"
    return o


def product(text, kind, tag, ports, ns):
    """Header: the Python model next to the compiled Verilog."""
    text = text.replace("namespace cxxrtl_design", f"namespace {ns}")
    text = re.sub(r"\nextern \"C\".*", "\n", text, flags=re.S)
    body = text.split("struct p_dutmod : public module {", 1)[1]
    decl = body.split("\n};", 1)[0].split("\n}; // struct", 1)[0]
    wires = re.findall(r"^\t(?:/\*\w+\*/ )?wire<(\d+)> (\w+);", decl, re.M)
    mems = []
    for w, n, d in re.findall(r"^\tmemory<(\d+)> (\w+) \{ (\d+)u \};", decl,
                              re.M):
        if f"{n}.update(" in text:
            mems.append((int(w), n, int(d)))
    words = lambda w: (int(w) + 31) // 32   # noqa: E731
    nw = sum(words(w) for w, _ in wires) + sum(words(w) * d
                                              for w, _, d in mems)
    sv, ld, k = [], [], 0
    for w, n in wires:
        for c in range(words(w)):
            sv.append(f"b[{k}] = m.{n}.curr.data[{c}];")
            ld.append(f"m.{n}.curr.data[{c}] = m.{n}.next.data[{c}] = b[{k}];")
            k += 1
    for w, n, d in mems:
        c = words(w)
        sv.append(f"for (int i = 0; i < {d}; i++) for (int j = 0; j < {c}; "
                  f"j++) b[{k} + i * {c} + j] = m.{n}.data[i].data[j];")
        ld.append(f"for (int i = 0; i < {d}; i++) for (int j = 0; j < {c}; "
                  f"j++) m.{n}.data[i].data[j] = b[{k} + i * {c} + j];")
        k += c * d
    assert k == nw
    ins = [n for n, (d, _) in ports.items() if d == "input"
           and n not in ("clk",)]
    outs = [(n, w) for n, (d, w) in ports.items() if d == "output"]
    o = [f'#pragma once\n#include "dut_{kind}.h"\n', text, f"""
namespace {ns} {{
typedef unsigned u32_;
struct Blob {{ u32_ b[{nw}]; }};
template <size_t B> static uint64_t val(const value<B>& v) {{ return v.template get<uint64_t>(); }}
template <size_t B> static uint64_t val(const wire<B>& v) {{ return v.template get<uint64_t>(); }}
static void save(p_dutmod& m, u32_* b) {{ {" ".join(sv)} }}
static void load(p_dutmod& m, const u32_* b) {{ {" ".join(ld)} }}
static p_dutmod& inst() {{ static thread_local std::unique_ptr<p_dutmod> p; if (!p) p.reset(new p_dutmod); return *p; }}
}}
struct P : T_{kind} {{
  typedef T_{kind} B_;
  struct State {{ B_::State a; {ns}::Blob b; }};
  struct Out : B_::Out {{ {" ".join(f"uint64_t v_{n};" for n, _ in outs)} }};
  static void por(State& s) {{
    memset(&s, 0, sizeof s);
    B_::por(s.a);
    {ns}::p_dutmod m;
    {ns}::save(m, s.b.b);
  }}
  template <bool C> static void step(State& s, const In& i, Out& o) {{
    {ns}::p_dutmod& m = {ns}::inst();
    {ns}::load(m, s.b.b);
    {" ".join(f"m.{mangle(n)}.set<uint32_t>((uint32_t)i.{n});" for n in ins)}
    m.p_clk.set<uint32_t>(0); m.prev_p_clk.set<uint32_t>(0); m.step();
    {" ".join(f"o.v_{n} = {ns}::val(m.{mangle(n)});" for n, _ in outs)}
    if (C) {{
      m.p_clk.set<uint32_t>(1); m.step();
      {ns}::save(m, s.b.b);
    }}
    B_::step<C>(s.a, i, o);
  }}
  static const char* differs(const Out& o) {{
    {" ".join(f'if (o.v_{n} != (uint64_t)o.{n}) return "output {n} of the Verilog ({tag}) differs from the Python design";' for n, _ in outs)}
    return nullptr;
  }}
}};
"""]
    return "".join(o)


def main(outdir, tier):
    cs = cases(tier)
    # the first run alone: it may have to fill yosys' compilation caches
    outs = [generate(0, cs[0], outdir)]
    with ThreadPoolExecutor(8) as ex:
        outs += list(ex.map(lambda t: generate(t[0], t[1], outdir),
                            list(enumerate(cs))[1:]))
    res = {"runs": len(cs), "bad": [], "classes": [], "labels": []}
    texts = {}
    for i, (c, (text, err)) in enumerate(zip(cs, outs)):
        label = f"{c[0]} {' '.join(c[1]) or '(no arguments)'}" + (
            " over an existing file" if c[2] else "")
        res["labels"].append(label)
        if err:
            res["bad"].append({"what": f"{label}: {err}", "key": err})
            continue
        # with no arguments at all there is no name to speak of
        n = c[1][c[1].index("-n") + 1] if "-n" in c[1] else \
            "sentinel" if c[1] else None
        texts.setdefault(("-f" in c[1], n, strip(text)), []).append(
            (i, label, text))
    exp = {False: expected(False), True: expected(True)}

    # yosys reads each distinct text: interface, and C++ of the whole design
    def iface(item):
        (f, n, _), runs = item
        i, label, text = runs[0]
        d = os.path.join(outdir, f"r{i}")
        os.makedirs(d)
        with open(os.path.join(d, "r.v"), "w") as fp:
            fp.write(text)
        rc, err = yosys_sub(
            "read_verilog r.v; hierarchy -auto-top; proc; write_json "
            "r.json; flatten; rename -top dutmod; opt_clean; "
            "write_cxxrtl -O6 -g0 r.cc", d)
        if rc:
            return f"{label}: yosys rejects the Verilog: {err[-300:]}", None
        j = json.load(open(f"{d}/r.json"))
        tops = [k for k, m in j["modules"].items()
                if int(m["attributes"].get("top", "0"), 2)]
        if len(tops) != 1 or (n and tops[0].lstrip("\\") != n):
            return f"{label}: top module is {tops}, not {n}", None
        got = {k: (p["direction"], len(p["bits"]))
               for k, p in j["modules"][tops[0]]["ports"].items()}
        want = exp[f]
        if got != want:
            q = {k for k in set(got) | set(want) if got.get(k) != want.get(k)}
            return (f"{label}: ports differ from the Python design: " + ", ".join(
                f"{k}: {got.get(k)} instead of {want.get(k)}"
                for k in sorted(q)[:6])), None
        cc = re.sub(r"\s*//[^\n]*", "", open(f"{d}/r.cc").read())
        shutil.rmtree(d)
        ids = {}    # names yosys makes up carry line and running numbers
        return None, re.sub(
            r"_3a_\d+(?:_3a_\w+?)?_24_\d+",
            lambda m: f"_auto{ids.setdefault(m.group(), len(ids))}", cc)
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(iface, texts.items()))
    classes = {}
    for (key, runs), (err, cc) in zip(texts.items(), got):
        if err:
            res["bad"].append({"what": err, "key": err})
        else:
            classes.setdefault((key[0], cc), []).extend(runs)
    res["interfaces_checked"] = len(texts)
    for k, ((f, cc), runs) in enumerate(classes.items()):
        res["classes"].append({"index": k, "formal": f, "first": runs[0][1],
                               "runs": len(runs)})
        with open(f"{outdir}/dut_v{k}.h", "w") as fp:
            fp.write(product(cc, "formal" if f else "top", runs[0][1], exp[f],
                             f"vlog{k}"))
    with open(os.path.join(outdir, "vlog.json"), "w") as fp:
        json.dump(res, fp)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
