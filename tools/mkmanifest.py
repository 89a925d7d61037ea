"""Writes /verif/MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TREE = ("explicit-state model checking: exhaustive bounded enumeration of "
        "executions of the netlist's transition relation in lockstep with an "
        "ISA reference model, traces replayed on Amaranth's simulator")
NOTE = ("Decides the property for every execution within the bounds written "
        "to the evidence file, on a transition relation regenerated from "
        "/repo on every run; assumes slaves acknowledge no earlier than the "
        "cycle after a request appears, and trusts the netlist-to-C++ "
        "translation as far as the replayed traces bind it.")
CHECKS = {f"C{i:02d}": (TREE, "model_checking", NOTE) for i in range(1, 16)}
FIXT = (" Also breadth-first reachability to a fixpoint of closed programs "
        "with the environment (interrupt line, acknowledges, idle data, reset) "
        "free in every cycle.")
for _p in ("C08", "C09", "C10", "C11", "C12", "C13"):
    CHECKS[_p] = (TREE + "; breadth-first reachability of closed programs under "
                  "a free environment", "model_checking", NOTE + FIXT)
CHECKS["C25"] = (TREE, "model_checking", NOTE)
CHECKS["C16"] = ("explicit-state model checking: exhaustive bounded enumeration "
                 "of FormalTop's executions with an RVFI monitor, traces "
                 "replayed on Amaranth's simulator", "model_checking", NOTE)
CHECKS["C22"] = ("explicit-state model checking: exhaustive bounded enumeration "
                 "of FormalTop's executions with a monitor of the RVFI CSR "
                 "channels, traces replayed on Amaranth's simulator",
                 "model_checking", NOTE)
PROD = ("explicit-state model checking of a product: {}, same inputs, outputs "
        "compared in every cycle over exhaustively enumerated executions and "
        "reachable states of closed programs")
CHECKS["C17"] = (PROD.format("Top, Top(formal=True) and FormalTop side by side"),
                 "model_checking", NOTE)
CHECKS["C18"] = (PROD.format("wrapped core x plain core with the disabled cycles "
                             "deleted"), "model_checking", NOTE)
CHECKS["C19"] = (PROD.format("Python design x transition relation compiled from "
                             "the generated Verilog") + "; exhaustive enumeration "
                 "of generator options", "model_checking", NOTE + " The "
                 "Verilog's meaning is that of yosys' front end and cxxrtl.")
ENUM = ("bounded exhaustive enumeration of {} through the real UCodeROM, each "
        "judged by a reference model")
CHECKS["C20"] = (ENUM.format("microcode sources"), "exploration",
                 "Every source of a stated grammar up to stated sizes; the ROM "
                 "is read back through Amaranth's simulator. No reachable-state "
                 "space is involved, so the level is exploration.")
CHECKS["C21"] = (ENUM.format("source/field-map disagreements"), "exploration",
                 "Every pair of source and field map over stated small domains, "
                 "plus every single-entry change of the shipped map.")
CHECKS["C23"] = ("explicit-state model checking: every state and input of the "
                 "ALU's transition relation at small widths, structured "
                 "operands and all ordered pairs of operations at every width "
                 "to 64, against a reference; traces replayed on Amaranth's "
                 "simulator", "model_checking",
                 "Complete for widths 1-5; at larger widths operands are a "
                 "stated structured set (all pairs of it).")
CHECKS["C24"] = ("explicit-state model checking: breadth-first reachability of "
                 "Control running each of a family of microprograms, every "
                 "input in every reachable state, in product with a reference "
                 "sequencer; every state's trace replayed on Amaranth's "
                 "simulator", "model_checking",
                 "Complete for each microprogram (all reachable states, all "
                 "inputs, reset anywhere); the microprograms are a stated "
                 "family that gives every field each of its values.")
UNIT = ("explicit-state model checking: exhaustive bounded enumeration of "
        "input sequences through the netlist's transition relation of {} in "
        "lockstep with a reference model, traces replayed on Amaranth's "
        "simulator")
for _p, _w, _b in (
        ("C26", "DataPath", "Every control word after a filled register file "
         "with everything read back, and every sequence of operations to a "
         "stated depth; data values are a stated set."),
        ("C27", "Decode", "Complete for a single decode: all 2^32 words; "
         "histories are all pairs of a stated alphabet with pauses and resets."),
        ("C28", "each unit", "Complete in selections, sizes and address "
         "offsets; data covers every halfword on every lane and a stated set "
         "of words."),
        ("C29", "ExceptionRouter", "Complete: every reachable state and every "
         "input in it, decoder causes and unused CSR bits from a stated set.")):
    CHECKS[_p] = (UNIT.format(_w), "model_checking", _b)
REACH = ("explicit-state model checking: breadth-first reachability of {} in "
         "product with a reference model, every input in every reachable "
         "state; traces replayed on Amaranth's simulator")
for _p, _w, _b in (
        ("C30", "WBMemory", "Complete for two words with byte values 0 and 255; "
         "larger memories by all pairs of addresses and all single bits."),
        ("C31", "the GPIO and timer peripherals", "Complete for the timer; for "
         "the GPIO over a few values jointly and all 256 values of each "
         "register alone."),
        ("C32", "the UART alone and on either bus", "Complete for the stated "
         "divisors: every byte in either direction alone, one to three bytes "
         "in both at once.")):
    CHECKS[_p] = (REACH.format(_w), "model_checking", _b + " amaranth_soc's bus "
                  "signatures and CSR bridge are stand-ins.")
NA = {}
m = {"version": 1,
     "setup_cmd": "mkdir -p build evidence && python3 check.py --selftest",
     "hooks": {"guard": "none", "enable": "no hooks: every check works through public ports of the unmodified design", "source_commits": []},
     "checks": [{"property": k, "quick_cmd": f"VERIF_TIER=quick python3 check.py {k}",
                 "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {k}",
                 "technique": t, "level": l, "level_note": n}
                for k, (t, l, n) in sorted(CHECKS.items())],
     "not_applicable": [{"property": k, "reason": r} for k, r in sorted(NA.items())]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
