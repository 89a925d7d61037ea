"""property -> (function(run, tier), level, assumptions)"""

import json
import subprocess

ENV_A = [
    "the bus slave acknowledges a request no earlier than the cycle after it "
    "first appears and only while CYC and STB are asserted (assumption of "
    "tests/formal/wrapper.sv)",
    "power-on state is the initial state of the netlist (registers' init "
    "values, memories zero)",
    "the C++ transition relation is the netlist Amaranth builds from /repo's "
    "working tree; every kept trace is replayed cycle by cycle on Amaranth's "
    "simulator running the real object",
]


FIX = ("C08", "C09", "C10", "C11", "C12", "C13")


def tree(pid):
    def f(run, tier):
        run.explore(["top"], "mc.cpp", [pid, tier], "tree")
        if pid in FIX and not run.viol:
            run.explore(["top"], "fix.cpp", [pid, tier], "fixpoint")
    return f


PROPS = {}
for _i in range(1, 16):
    PROPS[f"C{_i:02d}"] = (tree(f"C{_i:02d}"), "model_checking", ENV_A)
PROPS["C25"] = (tree("C25"), "model_checking", ENV_A)


def c16(run, tier):
    run.explore(["formal"], "rv.cpp", ["stream", tier], "rvfi")


def c22(run, tier):
    run.explore(["formal"], "rv.cpp", ["csr", tier], "rvfi_csr")


PROPS["C16"] = (c16, "model_checking", ENV_A)
PROPS["C22"] = (c22, "model_checking", ENV_A + [
    "a CSR's contents are judged once a program has written it (or reset "
    "defines them)",
    "mip's value is judged for CSR instructions during which the interrupt "
    "line does not move"])


def c17(run, tier):
    run.explore(["pair"], "eq17.cpp", [tier], "product")


def c18(run, tier):
    run.explore(["en", "top"], "eq18.cpp", [tier], "product")


def c19(run, tier):
    """Every generator run -> classes of texts -> one product each."""
    import os
    import check as ck
    ck.sh([ck.PY, os.path.join(ck.HERE, "lib", "vlog.py"), run.dir, tier], 1800)
    res = json.load(open(os.path.join(run.dir, "vlog.json")))
    for b in res["bad"]:
        run.viol.append({"what": b["what"], "key": b["key"]})
    run.cov["generator_runs"] = res["runs"]
    run.cov["interfaces_checked"] = res["interfaces_checked"]
    run.cov["verilog_classes"] = res["classes"]
    inc = subprocess.run([ck.PY, "-c", "import yowasp_yosys; print(yowasp_yosys"
                          ".__path__[0])"], capture_output=True, text=True,
                         check=True).stdout.strip()
    for c in res["classes"]:
        run.explore(["formal" if c["formal"] else "top"], "eq19.cpp",
                    [tier, "formal" if c["formal"] else "plain"],
                    f"verilog{c['index']}", cxx=(
                        f'-DVHDR="dut_v{c["index"]}.h"', "-I", os.path.join(
                            inc, "share/include/backends/cxxrtl/runtime")))


PROPS["C19"] = (c19, "model_checking", ENV_A + [
    "yosys' Verilog front end and cxxrtl back end give the Verilog its meaning",
    "run without any arguments the generator chooses the module name itself"])
PROPS["C17"] = (c17, "model_checking", ENV_A)
PROPS["C18"] = (c18, "model_checking", ENV_A)


def c20(run, tier):
    run.enumerate("ucode_check.py", ["layout", tier], (
        "every microcode source of a grammar: 1-4 fields x kind (plain, bool, "
        "enum) x gap before each x declaration order x origins written or "
        "implicit, with a program giving every field each of its boundary "
        "values alone and all together around an address hole; fields of "
        "width 1..40 at boundary offsets with every single-bit value; programs "
        "of every length 1..69 in memories of exactly and almost that size; "
        "sources given as stream or file, hex and field-definition files on or "
        "off; plus the shipped microcode.  Non-trivial: m5meta accepts the source and every "
        "address was read back through the simulated ROM component."))


def c21(run, tier):
    run.enumerate("ucode_check.py", ["mismatch", tier], (
        "every pair (source enumeration, class enumeration) over three names "
        "and values 0..2 (3 thorough), every combination of field widths, "
        "missing and extra map entries and enum/non-enum pairings, 1-3 address "
        "spaces each empty, with fields or with code, Amaranth enumerations "
        "with every shape 1..4, one wrong member at every place of "
        "enumerations of up to 17, one wrong field at every place, and every single-entry change of the shipped field map.  "
        "Non-trivial: distinct cases in which source and map disagree."))


UC_A = ["m5meta and m5pre are as installed; a source m5meta itself rejects is "
        "outside the property"]
PROPS["C20"] = (c20, "exploration", UC_A)
PROPS["C21"] = (c21, "exploration", UC_A)


def component(run, tier, kinds, src, name, core, optional=()):
    """Explore components; in a tree without that component or port (they are
    not the package's public interface) decide through the core instead."""
    import check as ck
    try:
        run.component(kinds, src, [tier], name, optional)
    except ck.Gone as e:
        run.assume.append(f"this tree has no such component ({e}): its effect "
                          f"on the core was explored instead, as for {core}")
        for c in core.split():
            PROPS[c][0](run, tier)


def c23(run, tier):
    component(run, tier, [f"alu_{w}" for w in range(1, 65)], "alu.cpp", "alu",
              "C01")


def c24(run, tier):
    component(run, tier,
              [f"ctl_{n}" for n in range(96 if tier == "thorough" else 24)],
              "ctl.cpp", "control", "C04 C06")


PROPS["C23"] = (c23, "model_checking", [
    "only the operations and modifiers OpType, ALUIMod and ALUOMod name",
    "widths 1 to 64"])
PROPS["C24"] = (c24, "model_checking", [
    "for JmpType.MAP the sense of the condition is the one the shipped "
    "microcode and microcode.asm's comment rely on (target if the test holds, "
    "the mapped address otherwise); the docstring has it the other way round",
    "microprograms of 256 words, as the 8-bit target field addresses them"])


def unit(kinds, src, name, assume, core="", optional=()):
    def f(run, tier):
        component(run, tier, kinds, src, name, core, optional)
    return (f, "model_checking", assume)


PROPS["C26"] = unit(["dp_0"], "dp.cpp", "datapath", [
    "a register is judged once written; writing mstatus while a trap is "
    "entered or left is not promised anything"], "C07 C14")
PROPS["C28"] = unit(["amux_0", "bmux_0", "adra_0", "rda_0", "wda_0", "dsrc_0"],
                    "align.cpp", "align", [
    "MemSel.AUTO is judged for fetches only, and misaligned halfword and word "
    "accesses, which trap, are not judged"], "C02 C03", ("dsrc_0",))
PROPS["C29"] = unit(["exc_0"], "exc.cpp", "exceptions", [
    "mcause is judged from the cycle after an exception was detected until "
    "another check is asked for",
    "alignment checks are asked for with a byte, halfword or word access"],
    "C06 C08")
PROPS["C27"] = unit(["dec_0"], "dec.cpp", "decode", [
    "no decode is started in the cycle after one of a CSR instruction (it "
    "takes two)"], "C05")
PROPS["C33"] = unit(["views_0", "names_0"], "views.cpp", "views", [], "C05")
SOC_A = ["amaranth_soc is not installed: stand-ins with the same interface "
         "(lib/stubs) define the Wishbone and CSR bus signatures and the CSR "
         "bridge",
         "a Wishbone master keeps its request until it is acknowledged"]
PROPS["C30"] = unit(["wbmem_2", "wbmem_3", "wbmem_256"], "socmem.cpp",
                    "memory", SOC_A + ["addresses inside the memory"])
PROPS["C31"] = unit(["wbleds_0", "csrleds_0", "csrleds_1", "wbtim_0",
                     "csrtim_0", "csrtim_1"], "socio.cpp", "peripherals",
                    SOC_A + ["addresses of existing registers"])
PROPS["C32"] = unit(["uart_4", "uart_5", "uart_9", "wbser_4", "wbser_5",
                     "csrser_0", "csrser_1"], "socser.cpp", "serial",
                    SOC_A + ["incoming frames have exact bit times",
                             "a byte is written only while the transmitter is "
                             "empty; nothing is judged after an overflow or a "
                             "bad stop bit"])


def c34(run, tier):
    """Construction histories; designs whose netlist differs from the one a
    fresh process builds are explored side by side with it."""
    import os
    from concurrent.futures import ThreadPoolExecutor
    import check as ck
    run.enumerate("hist_check.py", [tier], (
        "every ordered pair of constructions of 16 kinds of design (and every "
        "pair of a rejected source or a run of the generator and a design), "
        "each converted at once, all at the end, or in the opposite order; "
        "every triple of the cheap events followed by a core, ROM or control; "
        "six of the same kind.  Every design a history yields is compared with "
        "the one a fresh process builds first.  Non-trivial: the history "
        "yielded a design after another event."))
    def product(p):
        name = p["header"][:-2]
        exe = run.cxx("hist.cpp", name, [f'-DHDR="{p["header"]}"'])
        out = os.path.join(run.dir, name + ".json")
        ck.sh([exe, tier, out], 3600)
        return p, json.load(open(out))

    with ThreadPoolExecutor(8) as pool:
        products = list(pool.map(product, run.cov.pop("products")))
    for p, r in products:
        run.cov[f"product {p['kind']} after {p['history']}"] = \
            f"{r['states']} states, {r['transitions']} transitions"
        if r["bad"]:
            run.viol.append({
                "what": f"construction history {p['history']}: {p['kind']} "
                f"differs from one built first: {r['bad']}",
                "key": f"{p['kind']}: {r['bad']}", "input": p["history"]})
    if run.cov.pop("duo"):
        exe = run.cxx("duo.cpp", "duo", ['-DHDR="duo.h"'])
        out = os.path.join(run.dir, "duo.json")
        ck.sh([exe, tier, out], 3600)
        r = json.load(open(out))
        run.cov["two cores in one design, beside two alone"] = \
            f"{r['states']} states, {r['transitions']} transitions"
        if r["bad"]:
            run.viol.append({"what": f"two cores in one design: {r['bad']}",
                             "key": r["bad"], "input": "duo"})
    if run.cov["not_in_this_tree"]:
        run.assume.append("not judged, for lack of their constructors in this "
                          f"tree: {sorted(run.cov['not_in_this_tree'])}")


PROPS["C34"] = (c34, "exploration", [
    "equal netlists are equal designs; the netlist is the one Amaranth builds"])
