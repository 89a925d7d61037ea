// Documented cycle counts (doc/development/internals.md, "Instruction Cycle
// Counts"): cycles from one instruction's fetch to the next one's, with every
// request acknowledged in the cycle after it appears.
static unsigned doc_cycles(const Iss& c, u32 w, bool traps, bool* ok) {
  u32 op = w & 127, f3 = (w >> 12) & 7, r2 = (w >> 20) & 31, r1 = (w >> 15) & 31;
  *ok = true;
  unsigned t = traps ? 5 : 0;
  switch (op) {
    case 0x33:
      if (traps) return 7;
      if (f3 == 1 || f3 == 5) { u32 n = c.x[r2] & 31; return n ? 7 + 2 * n : 10; }
      return 4;
    case 0x13:
      if (traps) return 7;
      if (f3 == 1 || f3 == 5) return r2 ? 7 + 2 * r2 : 9;
      return 4;
    case 0x37: case 0x17: case 0x0F: return traps ? 7 : 6;
    case 0x03: return traps ? 10 : 9;
    case 0x23: return 10;
    case 0x63: return traps ? 13 : 8;
    case 0x6F: case 0x67: return 7 + t;
    case 0x73:
      if (w == MRET) return 8;
      if (w == WFI) return 6;
      if (traps) return 8;
      if ((f3 & 3) == 2 && r1 == 0 && csr_kind(w >> 20) != CSR_REAL) return 6;
      return 10;
  }
  return 7;
}
static bool timed(W& w, C& c, const Step& s, const char* label) {
  Iss before = c.iss;
  Iss t = before;
  Eff e = iss_step(t, s.word, s.rdata, s.irq0);
  C twin = c;
  if (!w.exec(c, s)) {
    if (w.kind != V_HANG) w.kind = V_ABORT;  // wrong results belong to other properties
    return false;
  }
  bool known;
  bool took = s.irq0 && (before.mstatus & MIE_BIT) && (before.mie & MEI_BIT);
  bool trapped = e.trap || took;
  unsigned lim = took ? 7 : doc_cycles(before, s.word, trapped, &known);
  if ((s.word & 127) == 0x63 && !trapped && t.pc == before.pc + 4 && (immB(s.word) != 4)) lim = 7;
  unsigned waits = s.fd - 1 + (took || !e.mem ? 0 : s.md - 1);
  w.outcome(H(s.word & 0xFE00707F, w.last_cycles - waits));
  if (w.last_cycles > lim + waits) {
    w.fail(V_TIME, "word %08x at %08x took %u cycles (%u of them wait states), documented bound %u", s.word, before.pc, w.last_cycles, waits, lim);
    return false;
  }
  // Each wait state costs exactly its own cycle: the same step without any.
  if (waits) {
    Step q = s;
    q.fd = q.md = 1;
    unsigned with = w.last_cycles;
    C p = twin;
    if (!w.exec(p, q)) return true;  // judged where that step is itself explored
    unsigned without = w.last_cycles;
    w.last_cycles = with;
    if (with != without + waits) {
      w.fail(V_TIME, "word %08x at %08x took %u cycles with %u wait states and %u without", s.word, before.pc, with, waits, without);
      return false;
    }
  }
  (void)label;
  return true;
}
static void c13(Shared& sh) {
  auto a = alphabet(true, true);
  int n = a.size();
  auto v = values(tier ? 2 : 1);
  bound("cycle bound on every instruction of all %s of %d forms x interrupt line 0/1; all 32 shift amounts x %zu values x 6 shifts; 10+6 operations and 6 branches x %zu^2 operands; every (opcode, funct3, funct7) with 3 register patterns; progress: a new request within 140 cycles of the last acknowledge", "triples (waits 1..2; pairs: 1..3); waits 1..40 x 1..40 on every single form; each wait state costs exactly one cycle", n, v.size(), v.size());
  parallel<T>(sh, (long)n * n, [&](W& w, long i) {
    C c;
    int cfg = i & 1;
    if (!w.base(1 + cfg, c, [&](C& x) { return mk_base(w, x, 0x00040400, cfg ? MIE_BIT : 0, MEI_BIT); })) return;
    for (int fd = 1; fd <= 3; fd++) for (int md = 1; md <= 3; md++) for (int q = 0; q < 2; q++) {
      C d = c;
      Step x, y;
      x.word = a[i / n].word; x.rdata = a[i / n].rdata; x.fd = fd; x.md = md; x.junk = (fd + md) & 3;
      y = x; y.word = a[i % n].word; y.rdata = a[i % n].rdata; y.irq0 = q;
      bool ok = timed(w, d, x, "pair") && timed(w, d, y, "pair");
      if (ok) w.leaf("pair"); else { if (!w.report("pair")) return; continue; }
      if (tier || (fd == 1 && md == 1) || (fd == 2 && md == 2)) for (auto& s : a) {
        C e = d;
        Step z; z.word = s.word; z.rdata = s.rdata; z.fd = fd; z.md = md;
        if (timed(w, e, z, "triple")) w.leaf("triple"); else if (!w.report("triple")) return;
      }
    }
  }, false, 140);
  parallel<T>(sh, n, [&](W& w, long i) {  // long waits
    C c;
    if (!base0(w, c)) return;
    for (int fd = 1; fd <= 40; fd++) for (int md = 1; md <= ((a[i].word & 0x5F) == 3 ? 40 : 1); md++) {
      C d = c;
      Step x; x.word = a[i].word; x.rdata = a[i].rdata; x.fd = fd; x.md = md; x.junk = (fd + md) & 3;
      if (timed(w, d, x, "long wait")) w.leaf("long wait"); else if (!w.report("long wait")) return;
    }
  }, false, 140);
  parallel<T>(sh, v.size(), [&](W& w, long i) {
    C c, d;
    if (!base0(w, c)) return;
    if (!w.li(c, 11, v[i])) { w.report("operands"); return; }
    auto go = [&](const C& b, u32 word) { C e = b; Step s; s.word = word; if (timed(w, e, s, "operands")) { w.leaf("operands"); return true; } return w.report("operands"); };
    for (u32 k = 0; k < 32; k++) for (auto& o : SHIS) if (!go(c, I(o.f7 << 5 | k, 11, o.f3, 13))) return;
    for (auto& o : OPIS) for (u32 imm : {0u, 1u, 0x7FFu, 0x800u, 0xFFFu}) if (!go(c, I(imm, 11, o.f3, 13))) return;
    for (u32 b : v) {
      d = c;
      if (!w.li(d, 12, b)) { if (!w.report("operands")) return; continue; }
      for (auto& o : OPS) if (!go(d, R(o.f7, 12, 11, o.f3, 13))) return;
      for (auto& o : BRS) if (!go(d, B(64, 12, 11, o.f3))) return;
    }
  });
  static const u32 RF[] = {0, 11, 31};
  parallel<T>(sh, 128 * 128, [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    for (u32 f3 = 0; f3 < 8; f3++) for (u32 a : RF) for (u32 b : RF) for (u32 d : RF) {
      C e = c;
      Step s; s.word = R(i >> 7, a, b, f3, d, i & 127);
      if (timed(w, e, s, "field grid")) w.leaf("field grid"); else if (!w.report("field grid")) return;
    }
  });
  long_runs(sh, a, tier ? 20000 : 3000, tier ? 20000 : 3000, [](W& w, C& c, const Sym& f, int k) {
    Step x = st_of(f);
    if (k % 3 == 0) { x.fd = 1 + k / 3 % 3; x.md = 1 + k / 9 % 3; }
    return timed(w, c, x, "long run");
  });
}
