"""Replay cycle traces recorded by the explorers on Amaranth's own simulator,
running the real elaborated object from /repo; any output that differs in any
cycle is a disagreement between transition relation and implementation.

conform.py RESULT.json FIRST STRIDE MAXCYCLES -> JSON on stdout"""
import json
import sys
import time
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import designs
import comps


class Replayer:
    def __init__(self, kind):
        from amaranth.sim import Simulator
        from amaranth.hdl import Module, ClockDomain
        e, p, extra, has_en = designs.make(kind)
        self.p = p
        self.extra = [p[k] for k in extra]
        self.has_en = has_en
        m = Module()
        m.domains.sync = cd = ClockDomain()
        m.submodules.dut = e
        self.rst = p["rsti"] if has_en else cd.rst
        self.sim = Simulator(m)
        self.sim.add_clock(1e-6)
        self.trace = None
        self.bad = None
        self.n = 0
        self.sim.add_testbench(self.bench)

    async def bench(self, ctx):
        from amaranth.hdl import Cat
        p = self.p
        outs = [p[f"bus__{k}"] for k in
                ("cyc", "stb", "we", "adr", "sel", "dat_w")] + self.extra
        for i, r in enumerate(self.trace or ()):
            ctx.set(self.rst, r[0])
            if self.has_en:
                ctx.set(p["en"], r[1])
            ctx.set(p["irq"], r[2])
            ctx.set(p["bus__ack"], r[3])
            ctx.set(p["bus__dat_r"], r[4])
            got = [int(ctx.get(o)) for o in outs]
            if got != r[5:5 + len(outs)]:
                self.bad = (i, got, r[5:5 + len(outs)])
                return
            self.n += 1
            await ctx.tick()

    def run(self, cycles):
        """None if every cycle agrees, else (cycle, simulator, model)."""
        self.trace, self.bad = cycles, None
        self.sim.reset()
        if cycles:
            # the clock toggles at half a period; run to the end of the bench
            self.sim.run_until(1e-6 * (len(cycles) + 2))
        return self.bad


def main():
    res = json.load(open(sys.argv[1]))
    first, stride, maxc = map(int, sys.argv[2:5])
    key = sys.argv[5] if len(sys.argv) > 5 else "samples"
    reps, done, cycles, bad = {}, 0, 0, []
    traces = [v["trace"] for v in res["violations"]] if key == "violations" \
        else res["samples"]
    order = {}      # component traces: one process per design
    for i, t in enumerate(traces):
        k = i
        if comps.kinds_of(t["design"]):
            k = order.setdefault(t["design"], len(order))
        if k % stride != first:
            continue
        if cycles > maxc:
            break
        r = reps.get(t["design"])
        if r is None:
            if comps.kinds_of(t["design"]):
                r = comps.Replayer(t["design"])
            else:
                r = Replayer(t["design"])
            reps[t["design"]] = r
        b = r.run(t["cycles"])
        if b is not None:
            bad.append({"trace": i, "cycle": b[0], "simulator": b[1],
                        "model": b[2]})
        done += 1
        cycles += len(t["cycles"])
    json.dump({"done": done, "cycles": cycles,
               "checked": sum(r.n for r in reps.values()), "bad": bad},
              sys.stdout)


if __name__ == "__main__":
    main()
