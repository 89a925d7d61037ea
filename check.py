#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree.

Tier from VERIF_TIER (quick|thorough).  Exit 0: held on everything explored;
1: VIOLATION line(s) printed; anything else: the check itself failed."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
sys.modules.setdefault("check", sys.modules[__name__])
PY = "/opt/venv/bin/python"
REPO = os.environ.get("SENTINEL_REPO", "/repo")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", SENTINEL_REPO=REPO)
NPROC = min(8, os.cpu_count() or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class CheckError(Exception):
    pass


class Gone(CheckError):
    """The tree has no component with this interface (any more)."""


def sh(cmd, timeout, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, timeout=timeout, env=ENV, **kw)
    if r.returncode:
        raise CheckError(f"{cmd[:3]} exited {r.returncode}\n"
                         f"{r.stdout[-2000:]}\n{r.stderr[-4000:]}")
    return r.stdout


class Run:
    """Scratch directory and results of one check run."""

    def __init__(self, pid):
        self.pid = pid
        self.dir = os.path.join(HERE, "build", f"run-{pid}-{os.getpid()}")
        os.makedirs(self.dir, exist_ok=True)
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "samples": [],
                    "cycles_validated_against_impl": 0, "engines": []}
        self.viol = []      # {"what", "key", "trace" or other data}
        self.assume = []
        self.exhaustive = True

    def enumerate(self, script, args, rule):
        """Run an input-space enumerator (cases judged one by one)."""
        out = os.path.join(self.dir, "enum.json")
        sh([PY, os.path.join(HERE, "lib", script), *args, out], 14400)
        res = json.load(open(out))
        self.cov = {"evaluations": res["evaluations"],
                    "distinct_nontrivial": res["nontrivial"],
                    "rule": rule, "samples": res["samples"]}
        for k in res:
            if k not in ("bad", "samples", "evaluations", "nontrivial"):
                self.cov[k] = res[k]
        for b in res["bad"]:
            self.viol.append({"what": b["bad"], "key": b.get("key", b["bad"]),
                              "input": b["src"]})

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def dut(self, kinds):
        ps = [(k, subprocess.Popen(
            [PY, os.path.join(HERE, "lib", "designs.py"), k,
             os.path.join(self.dir, f"dut_{k}.h")], env=ENV,
            stderr=subprocess.PIPE, stdout=subprocess.DEVNULL, text=True))
            for k in kinds]
        for k, p in ps:
            _, err = p.communicate(timeout=300)
            if p.returncode:
                raise CheckError(f"design {k} does not elaborate:\n{err[-3000:]}")

    def cxx(self, src, out, extra=()):
        sh(["g++", "-std=c++17", "-O2", "-w", "-I", self.dir, "-I",
            os.path.join(HERE, "src"), *extra, os.path.join(HERE, "src", src),
            "-o", os.path.join(self.dir, out), "-pthread"], 600)
        return os.path.join(self.dir, out)

    def explore(self, kinds, src, args, name, cxx=None):
        """Generate the designs, compile an explorer, run it, bind it."""
        self.dut(kinds)
        exe = os.path.join(self.dir, name if cxx else src.replace(".cpp", ""))
        if not os.path.exists(exe):
            self.cxx(src, os.path.basename(exe), cxx or ())
        out = os.path.join(self.dir, f"{name}.json")
        sh([exe, *args, out], 14400)
        res = json.load(open(out))
        self.merge(res, out, name)
        return res

    def component(self, kinds, src, args, name, optional=()):
        """Like explore, for stand-alone components (lib/comps.py)."""
        exe = src.replace(".cpp", "")
        sh([PY, os.path.join(HERE, "lib", "comps.py"), ",".join(kinds),
            os.path.join(self.dir, f"dut_{exe}.h")], 1200)
        bad = json.load(open(os.path.join(self.dir, f"dut_{exe}.h.json")))
        gone = [k for k in bad if bad[k].startswith("gone")]
        if set(gone) - {*optional}:
            raise Gone(bad[gone[0]])
        for k, why in bad.items():
            if k in gone:
                self.assume.append(f"{k} is not in this tree")
                continue
            self.viol.append({"what": f"{k} cannot be built: {why}"[:300],
                              "key": f"{k} cannot be built"})
        try:
            self.cxx(src, exe)
        except CheckError as e:     # a port or an enumeration's name
            if "is not a member of" in str(e) or "not declared" in str(e):
                raise Gone(str(e)[-300:]) from e
            raise
        out = os.path.join(self.dir, f"{name}.json")
        sh([os.path.join(self.dir, exe), *args, out], 14400)
        res = json.load(open(out))
        self.merge(res, out, name)

    def merge(self, res, path, name):
        c = self.cov
        c["states"] += res["states"]
        c["transitions"] += res["transitions"]
        eng = {k: v for k, v in res.items()
               if k not in ("violations", "samples")}
        eng["engine"] = name
        self.exhaustive = self.exhaustive and res.get("exhaustive", True)
        # bind: every kept trace on the real object in Amaranth's simulator
        n = self.conform(path, "samples", len(res["samples"]))
        c["traces_validated_against_impl"] += n["done"]
        c["cycles_validated_against_impl"] += n["checked"]
        eng["conformance_traces"] = n["done"]
        eng["conformance_cycles"] = n["checked"]
        c["engines"].append(eng)
        if n["bad"]:
            raise CheckError(f"model disagrees with the implementation: {n['bad'][:2]}")
        for t in res["samples"][:2]:
            c["samples"].append({"engine": name, "label": t["label"],
                                 "instructions": t["notes"][-6:],
                                 "cycles": len(t["cycles"])})
        if res["violations"]:
            n = self.conform(path, "violations", len(res["violations"]))
            if n["bad"]:
                raise CheckError("a counterexample does not replay on the "
                                 f"implementation: {n['bad'][:2]}")
        for v in res["violations"]:
            self.viol.append({"what": f"{v['kind']}: {v['what']} "
                              f"[{v['label']}]",
                              "key": v.get("key", v["what"]),
                              "trace": v["trace"]})

    def conform(self, path, key, n):
        k = max(1, min(NPROC, n))
        ps = [subprocess.Popen(
            [PY, os.path.join(HERE, "lib", "conform.py"), path, str(i),
             str(k), "100000000", key], env=ENV, text=True,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE) for i in range(k)]
        tot = {"done": 0, "checked": 0, "bad": []}
        for p in ps:
            o, e = p.communicate(timeout=1800)
            if p.returncode:
                raise CheckError(f"conformance replay failed:\n{e[-3000:]}")
            r = json.loads(o)
            tot["done"] += r["done"]
            tot["checked"] += r["checked"]
            tot["bad"] += r["bad"]
        return tot


def known():
    """[(property, key)] of recorded, unrepaired findings."""
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                r.append((f["property"], f["key"],
                          line.split(None, 3)[3].strip()))
    return r


def main():
    pid = sys.argv[1]
    if pid == "--selftest":     # setup: are the tools there, does it import?
        sh(["g++", "--version"], 60)
        sh([PY, "-c", "import amaranth, m5meta, m5pre"], 60)
        importlib.import_module("props")
        return 0
    t0 = time.time()
    props = importlib.import_module("props")
    fn, level, assume = props.PROPS[pid]
    run = Run(pid)
    try:
        fn(run, TIER)
    except CheckError as e:
        print(f"check {pid} could not be carried out: {e}", file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        run.close()
    evd = os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    for f in os.listdir(evd):
        if f.startswith(f"replay_{pid}_"):
            os.unlink(os.path.join(evd, f))
    new, kn = [], known()
    for v in run.viol:
        hit = [k for k in kn if k[0] == pid and k[1] == v["key"]]
        if hit:
            print(f"KNOWN-FINDING: property={pid} {hit[0][2]}; "
                  f"{v['what']}")
        else:
            new.append(v)
    for i, v in enumerate(new):
        rp = os.path.join(evd, f"replay_{pid}_{i}.json")
        with open(rp, "w") as f:
            json.dump(v, f)
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  {v['what']}")
    cov = run.cov
    cov["exhaustive"] = run.exhaustive
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level,
          "coverage": cov, "assumptions": list(assume) + run.assume,
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    tmp = os.path.join(evd, f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evd, f"{pid}.json"))
    count = ", ".join(f"{cov[k]} {k.replace('_', ' ')}" for k in (
        "states", "transitions", "traces_validated_against_impl",
        "evaluations", "distinct_nontrivial") if k in cov)
    print(f"{pid} {TIER}: {count}, {len(new)} violations, {ev['wall_s']} s")
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
