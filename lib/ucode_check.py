"""C20 and C21: UCodeROM on every source/field-map of a bounded grammar.

ucode_check.py layout|mismatch quick|thorough OUT.json"""
import enum
import functools
import io
import itertools
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import designs  # noqa: F401  (import path)

EN = {"a": 0, "b": 2, "c": 5}
WIDTH = 40


def kinds(tier):
    k = [("plain", 1), ("plain", 3), ("bool", 1), ("enum", 3)]
    return k + [("plain", 8)] if tier == "thorough" else k


class Layout:
    """fields in bit order: (name, kind, width, origin); a declaration order;
    whether origins are written out."""

    def __init__(self, fields, order, explicit, spare=2, dense=None):
        self.fields, self.order, self.explicit = fields, order, explicit
        self.spare = spare      # empty words after the program
        # program of this many consecutive words, or of words at these places
        self.dense = dense
        self.width = max(WIDTH, max(f[2] + f[3] for f in fields))

    def decl(self, f):
        name, kind, w, origin = f
        d = {"plain": f"width {w}", "bool": "bool",
             "enum": "enum { " + " ".join(f"{k} = {v};" for k, v in
                                          EN.items()) + " }"}[kind]
        if self.explicit:
            d += f", origin {origin}"
        return f"  {name}: {d}, default {self.show(f, self.default(f))};"

    @staticmethod
    def default(f):
        return {"plain": (1 << f[2]) - 1, "bool": 1, "enum": 5}[f[1]]

    @staticmethod
    def values(f):
        if f[1] == "plain" and f[2] > 3:
            return [0, (1 << f[2]) - 1] + [1 << i for i in range(f[2])]
        return {"plain": sorted({0, 1, (1 << f[2]) - 1, (1 << f[2]) >> 1}),
                "bool": [0, 1], "enum": [0, 2, 5]}[f[1]]

    @staticmethod
    def show(f, v):
        if f[1] == "bool":
            return "true" if v else "false"
        if f[1] == "enum":
            return next(k for k, x in EN.items() if x == v)
        return str(v)

    def program(self):
        """{address: {field: value}}: every value of every field alone (others
        at their default), all fields together, with a hole."""
        prog, a = {}, 0
        if self.dense is not None:
            f = self.fields[0]
            at = self.dense if isinstance(self.dense, (tuple, list)) else \
                range(self.dense)
            for a in at:
                prog[a] = {f[0]: (a * 5 + (a >> 4) + 1) % (1 << f[2])}
            return prog, max(at) + 1
        for f in self.fields:
            for v in self.values(f):
                prog[a] = {f[0]: v}
                a += 1
        a += 2
        for pick in (0, -1):
            prog[a] = {f[0]: self.values(f)[pick] for f in self.fields}
            a += 1
        return prog, a

    def source(self):
        prog, end = self.program()
        size = end + self.spare
        o = [f"space rom: width {self.width}, size {size};", "space rom;",
             "origin 0;", "fields rom: {"]
        o += [self.decl(self.fields[i]) for i in self.order] + ["};"]
        prev = -1
        byname = {f[0]: f for f in self.fields}
        for a in sorted(prog):
            if a != prev + 1:
                o.append(f"origin {a};")
            o.append(", ".join(f"{n} => {self.show(byname[n], v)}"
                               for n, v in prog[a].items()) + ";")
            prev = a
        return "\n".join(o) + "\n", prog, size

    def expected_origins(self):
        """Where the source puts each field: as written, or (no origin) the
        lowest free run, in declaration order."""
        if self.explicit:
            return {f[0]: f[3] for f in self.fields}
        at, pos = {}, 0
        for i in self.order:
            at[self.fields[i][0]] = pos
            pos += self.fields[i][2]
        return at


def field_class(f):
    from amaranth import unsigned
    if f[1] == "enum":
        return enum.Enum("En", {k.upper(): v for k, v in EN.items()})
    return unsigned(f[2])


def layouts(tier):
    ks = kinds(tier)
    gaps = (0, 1, 3) if tier == "quick" else (0, 1, 2, 5)
    for n in (1, 2, 3):
        for sel in itertools.product(ks, repeat=n):
            for g in itertools.product(gaps, repeat=n):
                fs, pos = [], 0
                for i, ((k, w), gap) in enumerate(zip(sel, g)):
                    pos += gap
                    fs.append((f"f{i}", k, w, pos))
                    pos += w
                orders = list(itertools.permutations(range(n)))
                if n == 3 and tier == "quick":
                    # all orders of gap patterns that differ in kind count
                    orders = [orders[0], orders[-1], orders[3]] \
                        if sum(map(bool, g)) != 1 else orders[:1]
                for o in orders:
                    yield fs, o, True
                if not any(g):
                    for o in itertools.permutations(range(n)):
                        yield fs, o, False
    # four fields, several gaps, declaration order only
    for g in itertools.product((0, 2), repeat=4):
        fs, pos = [], 0
        for i, ((k, w), gap) in enumerate(zip(ks, g)):
            pos += gap
            fs.append((f"f{i}", k, w, pos))
            pos += w
        yield fs, (0, 1, 2, 3), True


def shapes_of(tier):
    """One field of every width at several places, alone or next to another
    one; and programs of every length in memories of exactly that size."""
    for w in range(1, WIDTH + 1):
        for o in (0, 1, 7, 8, 9, 31, 32):
            if o + w <= WIDTH:
                yield [("f0", "plain", w, o)], (0,), True, 2, None
            if 0 < o and o + w <= WIDTH:
                yield ([("f0", "plain", o, 0), ("f1", "plain", w, o)], (0, 1),
                       True, 0, None)
    for n in range(1, 70 if tier == "quick" else 300):
        for spare in (0, 1):
            yield [("f0", "plain", 9, 3)], (0,), True, spare, n
    # words wider than the 32, 64, 128 bits of something on the way
    for w in (*range(41, 75), 96, 127, 128, 129, 130, 200, 256, 257):
        yield [("f0", "plain", w, 0)], (0,), True, 1, None
        yield ([("f0", "plain", 3, 0), ("f1", "bool", 1, 40),
                ("f2", "plain", 7, w)], (0, 1, 2), True, 1, None)
    # programs spread over large memories
    for p in range(6, 13 if tier == "quick" else 15):
        for k in (-1, 0, 1):
            yield ([("f0", "plain", 11, 1)], (0,), True, 1,
                   (0, 1, (1 << p - 1) + 3, (1 << p) - 2 + k, (1 << p) + k))
            yield ([("f0", "plain", 13, 0)], (0,), True, 0,
                   (3, (1 << p) + (1 << p - 2) + k))
    # many fields; names that sort unlike their places
    for n in (5, 8, 13, 26, 40):
        for names in ("zyx", "aZm"):
            fs = [(f"{names[i * 2 % 3]}_{(i * 7) % n}_{i}", "plain" if i % 3 else
                   "bool", 1 + (i % 5 if i % 3 else 0), 6 * i) for i in range(n)]
            tight = [(a, k, w, sum(f[2] for f in fs[:i]))
                     for i, (a, k, w, _) in enumerate(fs)]
            for o in (range(n), range(n)[::-1],
                      sorted(range(n), key=lambda i: i * 3 % n)):
                yield fs, tuple(o), True, 1, None
                yield tight, tuple(o), True, 1, None
                yield tight, tuple(o), False, 1, None


_PRISTINE = None


def pristine():
    """The field map of a fresh process: what one construction leaves behind
    must not decide the verdict on the next evaluation (histories of several
    constructions are evaluations of their own)."""
    global _PRISTINE
    from sentinel.ucoderom import UCodeROM
    if _PRISTINE is None:
        _PRISTINE = UCodeROM.field_map, dict(UCodeROM.field_map)
    obj, items = _PRISTINE
    UCodeROM.field_map = obj
    obj.clear()
    obj.update(items)
    return dict(items)


def guarded(f, *x):
    """An exception on the way (output file missing or unreadable, no such
    field, simulation impossible) is a violation, not a crash of the check."""
    try:
        return f(*x)
    except Exception as e:
        return {"src": json.dumps(x, default=str), "reads": 0, "err": False,
                "bad": f"{type(e).__name__}: {e}"}


def read_rom(rom, names, size):
    """Field values at every address, through the simulated component."""
    from amaranth.hdl import Value
    from amaranth.sim import Simulator
    out = []

    async def tb(ctx):
        for a in range(size):
            ctx.set(rom.addr, a)
            await ctx.tick()
            out.append({n: int(ctx.get(Value.cast(getattr(rom.fields, n))))
                        for n in names})
    sim = Simulator(rom)
    sim.add_clock(1e-6)
    sim.add_testbench(tb)
    sim.run()
    return out


def assembles(src):
    """Does m5meta on its own accept this source?"""
    from m5meta import M5Meta, M5MetaError
    from m5pre import M5Pre
    try:
        f = io.StringIO(src)
        m = M5Meta(f, obj_base_fn="x")
        m.src = M5Pre(f).read()
        for m.pass_num in (1, 2):
            m.pass12()
        return True
    except M5MetaError:
        return False


def one_layout(args):
    fs, order, explicit, want_hex, spare, dense = args
    from sentinel.ucoderom import UCodeROM
    from amaranth.hdl import Shape
    pristine()
    lay = Layout(fs, order, explicit, spare, dense)
    src, prog, size = lay.source()
    org = lay.expected_origins()
    r = {"src": src, "reads": 0, "bad": None}
    tmp = hexf = None
    try:
        kw = {}
        main = io.StringIO(src)
        if want_hex:
            tmp = tempfile.mkdtemp()
            hexf, deff = os.path.join(tmp, "h"), os.path.join(tmp, "d")
            kw["hex"], kw["field_defs"] = pathlib.Path(hexf), pathlib.Path(deff)
            pathlib.Path(hexf).write_text("@0 1 2 3\n" * 500)    # stale
            pathlib.Path(deff).write_text("field old: origin 0\n" * 500)
            if want_hex == 2:       # the source as a file, not a stream
                main = pathlib.Path(tmp) / "m.asm"
                main.write_text(src)
        try:
            rom = UCodeROM(main_file=main,
                           field_map={f[0]: field_class(f) for f in fs}, **kw)
        except Exception as e:
            if not assembles(src):      # m5meta's own limits are not sentinel's
                return r
            r["bad"] = f"matching source rejected: {type(e).__name__}: {e}"
            return r
        shp = rom.fields.shape()
        if 1 << len(rom.addr) < size:
            r["bad"] = f"{len(rom.addr)} address bits for {size} words"
            return r
        for f in fs:
            fld = shp[f[0]]
            if (fld.offset, Shape.cast(fld.shape).width) != (org[f[0]], f[2]):
                r["bad"] = (f"field {f[0]} occupies bits {fld.offset}+"
                            f"{fld.width}, source says {org[f[0]]}+{f[2]}")
                return r
        want, words = [], []
        for a in range(size):
            row = {f[0]: 0 for f in fs}
            if a in prog:
                row = {f[0]: prog[a].get(f[0], lay.default(f)) for f in fs}
            want.append(row)
            words.append(sum(row[f[0]] << org[f[0]] for f in fs))
        got = read_rom(rom, [f[0] for f in fs], size)
        r["reads"] = size
        for a in range(size):
            if got[a] != want[a]:
                r["bad"] = f"address {a} reads {got[a]}, source says {want[a]}"
                return r
        if want_hex:
            have, a = {}, 0
            for t in open(hexf).read().split():
                if t.startswith("@"):
                    a = int(t[1:], 16)
                else:
                    have[a] = int(t, 16)
                    a += 1
            exp = {a: words[a] for a in prog}
            if have != exp:
                r["bad"] = f"hex file lists {have}, source says {exp}"
                return r
            r["bad"] = fdef_bad(open(deff).read(), {
                f[0]: (org[f[0]], f[2], EN if f[1] == "enum" else None)
                for f in fs})
    finally:
        if tmp:
            shutil.rmtree(tmp)
    return r


def fdef_bad(text, fields):
    """Does the field definition file list exactly these fields?"""
    have, cur = {}, None
    for t in text.splitlines():
        t = t.split()
        if t[:1] == ["field"]:
            cur = t[1]
            have[cur] = (int(t[3]), int(t[5]), {} if t[6:] else None)
        elif len(t) == 3 and t[1] == "=":
            have[cur][2][t[0]] = int(t[2])
    have = {n: (o, w, e if e and set(e) != {"false", "true"} else None)
            for n, (o, w, e) in have.items()}
    if have != fields:
        return f"field definition file lists {have}, source says {fields}"


def default_rom():
    """The shipped microcode: m5meta run on its own against UCodeROM()."""
    from sentinel.ucoderom import UCodeROM
    from amaranth.hdl import Shape
    pristine()
    r = {"src": "default microcode.asm", "reads": 0, "bad": None}
    with tempfile.TemporaryDirectory() as d:
        src = pathlib.Path(UCodeROM.main_microcode_file())
        code = ("import sys; from m5meta import M5Meta; from m5pre import M5Pre\n"
                "f=open(sys.argv[1]); m=M5Meta(f,obj_base_fn='x'); m.src=M5Pre(f).read()\n"
                "for p in (1,2):\n m.pass_num=p; m.pass12()\n"
                "s=next(iter(m.spaces.values())); s.generate_object()\n"
                "import json; print(json.dumps({'size':s.size,'width':s.width,'data':{int(k):v for k,v in s.data.items()},"
                "'fields':{n:[f.origin,f.width] for n,f in s.fields.items()}}))")
        o = json.loads(subprocess.run([sys.executable, "-c", code, str(src)],
                                      check=True, stdout=subprocess.PIPE,
                                      cwd=d, text=True).stdout.strip().splitlines()[-1])
        rom = UCodeROM(hex=pathlib.Path(d) / "h.hex")
        shp = rom.fields.shape()
        for n, (og, w) in o["fields"].items():
            if (shp[n].offset, Shape.cast(shp[n].shape).width) != (og, w):
                r["bad"] = f"field {n} at {shp[n].offset}+{shp[n].width}, source says {og}+{w}"
                return r
            if shp[n].shape is not UCodeROM.field_map[n] and Shape.cast(shp[n].shape) != Shape.cast(UCodeROM.field_map[n]):
                r["bad"] = f"field {n} has shape {shp[n].shape}"
                return r
        got = read_rom(rom, list(o["fields"]), o["size"])
        r["reads"] = o["size"]
        data = {int(k): v for k, v in o["data"].items()}
        for a in range(o["size"]):
            w = data.get(a, 0)
            want = {n: (w >> og) & ((1 << wd) - 1) for n, (og, wd) in o["fields"].items()}
            if got[a] != want:
                r["bad"] = f"address {a} reads {got[a]}, source says {want}"
                return r
        have, a = {}, 0
        for t in open(pathlib.Path(d) / "h.hex").read().split():
            if t.startswith("@"):
                a = int(t[1:], 16)
            else:
                have[a] = int(t, 16)
                a += 1
        if have != data:
            r["bad"] = "hex file differs from the assembled words"
    return r


# ------------------------------------------------------------- mismatches
def enums(maxv):
    """every {name: value} over names a,b,c (each absent or 0..maxv)"""
    for v in itertools.product([None] + list(range(maxv + 1)), repeat=3):
        d = {n: x for n, x in zip("abc", v) if x is not None}
        if d and max(d.values()) > 0:
            yield d


def mismatches(tier):
    base = {"p": ("plain", 3), "q": ("bool", 1), "e": ("enum", {"a": 0, "b": 1, "c": 2})}
    # 1. all pairs of enumerations: source s, class k
    mv = 2 if tier == "quick" else 3
    es = list(enums(mv))
    for s in es:
        for k in es:
            yield {"spaces": 1, "src": dict(base, e=("enum", s)),
                   "map": {"p": 3, "q": 1, "e": k}}
    # 2. widths, missing entries, non-enums, explicit wider enumerations
    for p in range(1, 6):
        for q in range(1, 4):
            for ew in (None, 2, 3, 4):
                for miss in ((), ("p",), ("q",), ("e",), ("p", "q"), ("x",)):
                    for e in ({"a": 0, "b": 1, "c": 2}, 2, 3):
                        m = {"p": p, "q": q, "e": e}
                        m = {n: v for n, v in m.items() if n not in miss}
                        if "x" in miss:
                            m["x"] = 4       # an unused entry is harmless
                        yield {"spaces": 1, "src": dict(base, e=("enum", {"a": 0, "b": 1, "c": 2}, ew)), "map": m}
    # a map without any entry is a map, too, also for fields of the default one
    for n in ("p", "target"):
        yield {"spaces": 1, "src": {n: ("plain", 8)}, "map": {}, "first": f"{n} => 1;"}
    # 3. several address spaces
    for n in (1, 2, 3):
        # what each space declares: "-" nothing, "f" fields, "i" fields and an
        # instruction
        for what in itertools.product("-fi", repeat=n):
            if n == 1 and what == ("-",):
                continue
            yield {"spaces": n, "what": what, "src": base, "map": {"p": 3, "q": 1, "e": {"a": 0, "b": 1, "c": 2}}}
    # 3b. Amaranth enumerations with a shape of their own
    for sw in (None, 1, 2, 3, 4):
        for cw in (1, 2, 3, 4):
            for vals in ({"a": 0, "b": 1}, {"a": 0, "b": 1, "c": 2}, {"a": 0, "b": 1, "c": 2, "d": 3}, {"a": 1, "b": 4}):
                top = max(vals.values()).bit_length()
                if cw < top or (sw and sw < top):
                    continue
                for cv in (vals, dict(vals, a=vals["a"] ^ 1), {k: v for k, v in vals.items() if k != "a"}):
                    if len(set(cv.values())) == len(cv):
                        yield {"spaces": 1, "src": dict(base, e=("enum", vals, sw)), "map": {"p": 3, "q": 1, "e": cv}, "shape": cw}
    # 3c. many members, one of them different at every position
    for n in (5, 8, 9, 16, 17, 33, 65) if tier == "quick" else (5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 129, 257):
        vals = {f"n{i}": i for i in range(n)}
        yield {"spaces": 1, "src": dict(base, e=("enum", vals)), "map": {"p": 3, "q": 1, "e": vals}}
        for i in range(n):
            for cv in (dict(vals, **{f"n{i}": n}), {k: v for k, v in vals.items() if v != i}, {(k + "x" if v == i else k): v for k, v in vals.items()}):
                yield {"spaces": 1, "src": dict(base, e=("enum", vals)), "map": {"p": 3, "q": 1, "e": cv}}
                yield {"spaces": 1, "src": dict(base, e=("enum", cv)), "map": {"p": 3, "q": 1, "e": vals}}
    # 3d. a mismatch in any one of many fields, at every place
    for n in (2, 4, 7):
        src = {f"g{i}": ("plain", 1 + i % 3) if i % 2 else ("enum", {"a": 0, "b": 1}) for i in range(n)}
        good = {k: d[1] for k, d in src.items()}
        yield {"spaces": 1, "src": src, "map": good, "first": "g1 => 1;"}
        for i in range(n):
            for bad in (None, 5, {"a": 1, "b": 0}, {"a": 0, "b": 1, "c": 2}):
                m = dict(good, **{f"g{i}": bad})
                if bad is None:
                    del m[f"g{i}"]
                yield {"spaces": 1, "src": src, "map": m, "first": "g1 => 1;"}
    # 4. the default source with one entry of the default map changed
    from sentinel.ucoderom import UCodeROM
    from amaranth.hdl import Shape
    for n, c in UCodeROM.field_map.items():
        yield {"default": n, "how": "missing"}
        yield {"default": n, "how": "wider"}
        if Shape.cast(c).width > 1:
            yield {"default": n, "how": "narrower"}
        if isinstance(c, type) and issubclass(c, enum.Enum):
            for i in range(len(list(c))):
                yield {"default": n, "how": "drop", "i": i}
                yield {"default": n, "how": "rename", "i": i}
            yield {"default": n, "how": "extra"}
            yield {"default": n, "how": "swap"}
    yield {"default": None, "how": "same"}
    # 5. histories: constructions in one process do not influence each other
    E3 = {"a": 0, "b": 1, "c": 2}
    ok = {"spaces": 1, "src": base, "map": {"p": 3, "q": 1, "e": E3}}
    pool = [ok, {"default": None, "how": "same"}]
    for n in base:
        pool.append(dict(ok, map={k: v for k, v in ok["map"].items() if k != n}))
        pool.append(dict(ok, map=dict(ok["map"], **{n: 5})))
    pool.append(dict(ok, map=dict(ok["map"], e={"a": 0, "b": 2, "c": 1})))
    pool.append(dict(ok, src=dict(base, e=("enum", {"a": 0, "b": 2, "c": 1}))))
    pool.append(dict(ok, spaces=2))
    pool.append(dict(ok, map={"r": 3}, src={"r": ("plain", 3)}, first="r => 1;"))
    first = next(iter(UCodeROM.field_map))
    pool.append({"default": first, "how": "missing"})
    for k in (1, 2) if tier == "quick" else (1, 2, 3):
        for h in itertools.product(pool, repeat=k):
            for t in pool:
                if k > 1 and any("default" in c for c in (*h, t)):
                    continue        # the shipped source: histories of two
                yield {"hist": list(h), "then": t}


def bits(v):
    return max(1, v.bit_length()) if v else 0


def mk_source(c):
    o = []
    for i in range(c["spaces"]):
        o.append(f"space s{i}: width 24, size 8;")
    what = c.get("what", "i" * c["spaces"])
    for i in range(c["spaces"]):
        if what[i] == "-":
            continue
        o += [f"space s{i};", "origin 0;", f"fields s{i}: {{"]
        for n, d in c["src"].items():
            if d[0] == "plain":
                o.append(f"  {n}: width {d[1]}, default 0;")
            elif d[0] == "bool":
                o.append(f"  {n}: bool, default 0;")
            else:
                w = f"width {d[2]}, " if len(d) > 2 and d[2] else ""
                o.append(f"  {n}: {w}enum {{ " + " ".join(f"{k} = {v};" for k, v in d[1].items()) + f" }}, default {next(iter(d[1]))};")
        o.append("};")
        if what[i] == "i":
            o.append(c.get("first", "p => 1;"))
    return "\n".join(o) + "\n"


def expect_error(c):
    if c["spaces"] != 1:
        return True
    for n, d in c["src"].items():
        if n not in c["map"]:
            return True
        m = c["map"][n]
        if d[0] == "plain" and isinstance(m, dict):
            # an enumeration as the shape of a number: only its width counts
            if (c.get("shape") or max(m.values()).bit_length() or 1) != d[1]:
                return True
            continue
        if d[0] == "plain" and m != d[1] or d[0] == "bool" and m != 1:
            return True
        if d[0] == "enum":
            if isinstance(m, int):
                return True
            if m != d[1]:
                return True
            w = d[2] if len(d) > 2 and d[2] else max(d[1].values()).bit_length()
            if w != (c.get("shape") or max(m.values()).bit_length()):
                return True
    return False


def one_mismatch(c):
    r = {"src": json.dumps(c), "bad": None, "err": False}
    base_map = pristine()
    if "hist" in c:
        for before in c["hist"]:
            x = construct(before, base_map)
            if x is None:
                return r
        c = c["then"]
    cc = construct(c, base_map)
    if cc is None:
        return r
    exp, got = cc
    r["err"] = exp
    if exp and got is None:
        r["bad"] = "mismatch accepted"
    elif exp and not isinstance(got, ValueError):
        r["bad"] = f"mismatch raised {type(got).__name__} ({got}) instead of ValueError"
    elif not exp and got is not None:
        r["bad"] = f"matching source rejected: {type(got).__name__}: {got}"
    return r


def construct(c, base_map):
    """(does C21 demand an error, what was raised)"""
    from sentinel.ucoderom import UCodeROM
    from amaranth import unsigned
    from amaranth.hdl import Shape
    if "default" in c:
        fm = dict(base_map)
        n, how = c["default"], c["how"]
        exp = how != "same"
        if n is not None:
            old = fm[n]
            w = Shape.cast(old).width
            isenum = isinstance(old, type) and issubclass(old, enum.Enum)
            mem = {k: m.value for k, m in old.__members__.items()} if isenum else None
            names = [k.name for k in old] if isenum else None
            if how == "missing":
                del fm[n]
            elif how in ("wider", "narrower"):
                fm[n] = unsigned(w + (1 if how == "wider" else -1))
            elif how == "drop":
                mem.pop(names[c["i"]])
                fm[n] = enum.Enum(n, mem) if mem else unsigned(w)
            elif how == "rename":
                fm[n] = enum.Enum(n, {(k + "X" if k == names[c["i"]] else k): v for k, v in mem.items()})
            elif how == "extra":
                free = next(v for v in range(1 << 10) if v not in mem.values())
                fm[n] = enum.Enum(n, dict(mem, ZZZ=free))
            elif how == "swap":
                if len(names) < 2:
                    return None
                a, b = names[0], names[1]
                mem[a], mem[b] = mem[b], mem[a]
                fm[n] = enum.Enum(n, mem)
        kw = {"field_map": fm}
    else:
        exp = expect_error(c)
        def cls(m):
            d = {k.upper(): v for k, v in m.items()}
            if not c.get("shape"):
                return enum.Enum("E", d)
            import amaranth.lib.enum as ae
            ns = ae.EnumMeta.__prepare__("E", (ae.Enum,), shape=c["shape"])
            for k, v in d.items():
                ns[k] = v
            return ae.EnumMeta("E", (ae.Enum,), ns, shape=c["shape"])
        fm = {n: (cls(m) if isinstance(m, dict) else unsigned(m))
              for n, m in c["map"].items()}
        kw = {"main_file": io.StringIO(mk_source(c)), "field_map": fm}
    try:
        UCodeROM(**kw)
        return exp, None
    except Exception as e:
        return exp, e


run_layout = functools.partial(guarded, one_layout)
run_mismatch = functools.partial(guarded, one_mismatch)


def quiet():
    import warnings
    warnings.simplefilter("ignore")
    sys.stderr = open(os.devnull, "w")
    sys.stdout = open(os.devnull, "w")


def main():
    what, tier, out = sys.argv[1:4]
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1), quiet) as pool:
        if what == "layout":
            jobs = [(f, o, e, (0, 1, 2)[i % 3], 2, None)
                    for i, (f, o, e) in enumerate(layouts(tier))]
            jobs += [(f, o, e, (0, 1, 2)[i % 3], sp, d) for i, (f, o, e, sp, d)
                     in enumerate(shapes_of(tier))]
            res = list(pool.imap_unordered(run_layout, jobs, 16))
            res.append(guarded(default_rom))
            nontrivial = sum(r["reads"] > 0 for r in res)
        else:
            jobs = list(mismatches(tier))
            res = list(pool.imap_unordered(run_mismatch, jobs, 16))
            nontrivial = len({r["src"] for r in res if r["err"]})
    bad = [r for r in res if r["bad"]]
    bad.sort(key=lambda r: (len(r["src"]), r["src"]))
    json.dump({"evaluations": len(res), "nontrivial": nontrivial,
               "reads": sum(r.get("reads", 0) for r in res),
               "samples": [r["src"] for r in res[:: max(1, len(res) // 4)]][:5],
               "bad": bad[:10], "nbad": len(bad)}, open(out, "w"))


if __name__ == "__main__":
    main()
