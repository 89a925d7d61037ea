// C16: the rvfi stream; C22: its CSR channels.  rv <stream|csr> <quick|thorough> <out.json>
#include "dut_formal.h"
#include "enc.h"
typedef T_formal T;
typedef Worker<T> W;
typedef Ctx<T> C;
static int tier;
static bool csr_mode;
static bool reads_rs1(u32 w) { u32 op = w & 127; return op == 0x33 || op == 0x13 || op == 0x03 || op == 0x23 || op == 0x63 || op == 0x67 || (op == 0x73 && ((w >> 12) & 7) >= 1 && ((w >> 12) & 7) <= 3); }
static bool reads_rs2(u32 w) { u32 op = w & 127; return op == 0x33 || op == 0x23 || op == 0x63; }
static bool writes_rd(u32 w) { u32 op = w & 127; return op == 0x33 || op == 0x13 || op == 0x03 || op == 0x37 || op == 0x17 || op == 0x6F || op == 0x67 || (op == 0x73 && ((w >> 12) & 3)); }
#define BAD(...) return w.fail(V_EXTRA, __VA_ARGS__)
// ---- C22.  Slot of a CSR in the known-mask: CSR contents survive reset (and
// are unknown at power-on) until written, except those reset defines.
static int cslot(u32 num) { switch (num) { case 0x300: return 0; case 0x304: return 1; case 0x342: return 2; case 0x344: return 3; case 0x305: return 4; case 0x340: return 5; case 0x341: return 6; } return 7; }
static const u32 CRESET = 0x8F;
static bool csr_ck(W& w, const RvAux& a, u8 line, const char* nm, u32 num, u32 rd, u32 wd, u32 rm, u32 wm) {
  u32 word = a.s.word, f3 = (word >> 12) & 7, r1 = (word >> 15) & 31;
  bool trap = a.e.trap || a.took, ours = (word & 127) == 0x73 && (f3 & 3) && (word >> 20) == num && !trap;
  if (rm != ~0u || wm != ~0u) BAD("rvfi csr %s masks %08x %08x (word %08x)", nm, rm, wm, word);
  u32 old = csr_get(a.pre, num, a.s.irq0), nw = csr_get(a.post, num, a.s.irq0);
  u32 impl = num == 0x300 ? MIE_BIT | MPIE_BIT : num == 0x304 ? MEI_BIT : num == 0x344 ? 0 : (num == 0x305 || num == 0x341) ? ~3u : ~0u;
  if (num == 0x344 && (!ours || a.s.ion || a.s.ioff || a.s.imask || line != a.s.irq0)) return true;  // volatile: only judged while the line is constant
  bool known = (a.cknown >> cslot(num)) & 1;
  // mstatus' own stacking on traps and MRET is not part of the channel
  if (known && (num != 0x300 || ours) && rd != old) BAD("rvfi csr %s rdata %08x, expected %08x (word %08x)", nm, rd, old, word);
  bool writes = ours && ((f3 & 3) == 1 || r1);
  bool arg = (f3 & 4) || ((a.known >> r1) & 1);
  if (writes && arg && (known || (f3 & 3) == 1) && ((wd ^ nw) & impl)) BAD("rvfi csr %s wdata %08x, expected %08x (word %08x)", nm, wd, nw, word);
  if (trap && (num == 0x341 || num == 0x342) && ((wd ^ nw) & impl)) BAD("rvfi csr %s wdata %08x on a trap, expected %08x (word %08x)", nm, wd, nw, word);
  return true;
}
static bool zero_ck(W& w, const RvAux& a, const char* nm, u32 num, u32 numh, u64 rd, u64 wd, u64 rm, u64 wm) {
  u32 word = a.s.word, f3 = (word >> 12) & 7, r1 = (word >> 15) & 31;
  if (rd) BAD("rvfi csr %s reads %llx, expected 0 (word %08x)", nm, (unsigned long long)rd, word);
  if (rm != (numh ? ~0ull : 0xFFFFFFFFull)) BAD("rvfi csr %s rmask %llx (word %08x)", nm, (unsigned long long)rm, word);
  if (!numh && wm != 0xFFFFFFFFull) BAD("rvfi csr %s wmask %llx (word %08x)", nm, (unsigned long long)wm, word);
  if ((word & 127) != 0x73 || !(f3 & 3) || a.e.trap || a.took) return true;
  bool lo = (word >> 20) == num, hi = numh && (word >> 20) == numh;
  if (!lo && !hi) return true;
  u64 half = hi ? 0xFFFFFFFF00000000ull : 0xFFFFFFFFull;
  if (wm != half) BAD("rvfi csr %s wmask %llx, expected %llx (word %08x)", nm, (unsigned long long)wm, (unsigned long long)half, word);
  if (!(f3 & 4) && !((a.known >> r1) & 1)) return true;
  u32 want = (f3 & 3) == 3 ? 0 : (f3 & 4) ? r1 : a.pre.x[r1];
  u32 got = hi ? wd >> 32 : wd;
  if (got != want) BAD("rvfi csr %s wdata %08x, expected %08x (word %08x)", nm, got, want, word);
  return true;
}
static bool report(W& w, C& c, const T::Out& o, u8 line) {
  RvAux& a = c.aux;
  u32 word = a.s.word;
  bool trap = a.e.trap || a.took;
  if (o.rvfi__order != a.order) BAD("rvfi order %llu, expected %llu", (unsigned long long)o.rvfi__order, (unsigned long long)a.order);
  if (o.rvfi__insn != word) BAD("rvfi insn %08x, expected %08x", o.rvfi__insn, word);
  if (o.rvfi__pc_rdata != a.pre.pc) BAD("rvfi pc_rdata %08x, expected %08x (word %08x)", o.rvfi__pc_rdata, a.pre.pc, word);
  if (o.rvfi__pc_wdata != a.post.pc) BAD("rvfi pc_wdata %08x, expected %08x (word %08x)", o.rvfi__pc_wdata, a.post.pc, word);
  if (o.rvfi__trap != trap) BAD("rvfi trap %d, expected %d (word %08x)", o.rvfi__trap, trap, word);
  if (o.rvfi__intr != a.after_trap) BAD("rvfi intr %d, expected %d (word %08x)", o.rvfi__intr, a.after_trap, word);
  if (o.rvfi__mode != 3 || o.rvfi__ixl != 1 || o.rvfi__halt) BAD("rvfi mode %d ixl %d halt %d", o.rvfi__mode, o.rvfi__ixl, o.rvfi__halt);
  if (((a.known >> o.rvfi__rs1_addr) & 1) && o.rvfi__rs1_rdata != a.pre.x[o.rvfi__rs1_addr] && !((word & 127) == 0x73 && ((word >> 14) & 1))) BAD("rvfi rs1_rdata %08x for x%d, expected %08x (word %08x)", o.rvfi__rs1_rdata, o.rvfi__rs1_addr, a.pre.x[o.rvfi__rs1_addr], word);
  if (((a.known >> o.rvfi__rs2_addr) & 1) && o.rvfi__rs2_rdata != a.pre.x[o.rvfi__rs2_addr]) BAD("rvfi rs2_rdata %08x for x%d, expected %08x (word %08x)", o.rvfi__rs2_rdata, o.rvfi__rs2_addr, a.pre.x[o.rvfi__rs2_addr], word);
  if (!trap) {
    if (reads_rs1(word) && o.rvfi__rs1_addr != ((word >> 15) & 31)) BAD("rvfi rs1_addr %d (word %08x)", o.rvfi__rs1_addr, word);
    if (reads_rs2(word) && o.rvfi__rs2_addr != ((word >> 20) & 31)) BAD("rvfi rs2_addr %d (word %08x)", o.rvfi__rs2_addr, word);
    u32 rd = writes_rd(word) ? (word >> 7) & 31 : 0;
    if (o.rvfi__rd_addr != rd) BAD("rvfi rd_addr %d, expected %d (word %08x)", o.rvfi__rd_addr, rd, word);
    if (o.rvfi__rd_wdata != (rd ? a.post.x[rd] : 0)) BAD("rvfi rd_wdata %08x, expected %08x (word %08x)", o.rvfi__rd_wdata, rd ? a.post.x[rd] : 0, word);
  } else if (o.rvfi__rd_addr || o.rvfi__rd_wdata) BAD("rvfi reports x%d=%08x written by an instruction that trapped (word %08x)", o.rvfi__rd_addr, o.rvfi__rd_wdata, word);
  bool mem = a.e.mem && !a.took;
  u32 rm = mem && !a.e.we ? a.e.sel : 0, wm = mem && a.e.we ? a.e.sel : 0;
  if (o.rvfi__mem_rmask != rm || o.rvfi__mem_wmask != wm) BAD("rvfi mem masks %x/%x, expected %x/%x (word %08x)", o.rvfi__mem_rmask, o.rvfi__mem_wmask, rm, wm, word);
  if (mem) {
    u32 L = W::lanes(a.e.sel);
    if (o.rvfi__mem_addr != a.e.adr << 2) BAD("rvfi mem_addr %08x, expected %08x (word %08x)", o.rvfi__mem_addr, a.e.adr << 2, word);
    if (a.e.we ? (o.rvfi__mem_wdata ^ a.e.wdata) & L : (o.rvfi__mem_rdata ^ a.s.rdata) & L) BAD("rvfi mem data %08x/%08x (word %08x)", o.rvfi__mem_rdata, o.rvfi__mem_wdata, word);
  }
  return true;
}
static bool csr_report(W& w, C& c, const T::Out& o, u8 line) {
  RvAux& a = c.aux;
#define CSRCK(nm, num) if (!csr_ck(w, a, line, #nm, num, o.rvfi__csr__##nm##__rdata, o.rvfi__csr__##nm##__wdata, o.rvfi__csr__##nm##__rmask, o.rvfi__csr__##nm##__wmask)) return false;
  CSRCK(mscratch, 0x340) CSRCK(mcause, 0x342) CSRCK(mip, 0x344) CSRCK(mie, 0x304) CSRCK(mstatus, 0x300) CSRCK(mtvec, 0x305) CSRCK(mepc, 0x341)
#define ZCK(nm, num, numh) if (!zero_ck(w, a, #nm, num, numh, o.rvfi__csr__##nm##__rdata, o.rvfi__csr__##nm##__wdata, o.rvfi__csr__##nm##__rmask, o.rvfi__csr__##nm##__wmask)) return false;
  ZCK(misa, 0x301, 0) ZCK(mvendorid, 0xF11, 0) ZCK(marchid, 0xF12, 0) ZCK(mimpid, 0xF13, 0) ZCK(mhartid, 0xF14, 0) ZCK(mconfigptr, 0xF15, 0) ZCK(mstatush, 0x310, 0) ZCK(mtval, 0x343, 0)
  ZCK(mcycle, 0xB00, 0xB80) ZCK(minstret, 0xB02, 0xB82) ZCK(mhpmcounter3, 0xB03, 0xB83) ZCK(mcountinhibit, 0x320, 0) ZCK(mhpmevent3, 0x323, 0)
  return true;
}
static void init(W& w) {
  W* p = &w;
  w.tap = [p](C& c, const T::In& in, const T::Out& o) {
    RvAux& a = c.aux;
    if (in.rst) { memset(&a, 0, sizeof a); a.cmem = CRESET; return true; }
    if (!o.rvfi__valid) return true;
    if (csr_mode) {  // how often an instruction is reported belongs to C16
      if (!a.have || a.seen) return true;
      a.seen = true;
      return csr_report(*p, c, o, in.irq);
    }
    if (!a.have) return p->fail(V_EXTRA, "rvfi valid although no instruction has completed since the last report");
    if (a.seen) return p->fail(V_EXTRA, "second rvfi report of the instruction %08x at %08x", a.s.word, a.pre.pc);
    a.seen = true;
    return report(*p, c, o, in.irq);
  };
  w.retired = [p](C& c, const Iss& pre, const Step& s, const Eff& e, bool took) {
    RvAux& a = c.aux;
    if (!csr_mode && a.have && !a.seen) return p->fail(V_EXTRA, "instruction %08x at %08x was never reported on rvfi", a.s.word, a.pre.pc);
    u64 ord = a.have ? a.order + 1 : 0;
    a.after_trap = a.have && a.prev_trap;
    a.have = true; a.seen = false; a.took = took; a.order = ord; a.s = s; a.known = c.xknown; a.e = e; a.pre = pre; a.post = c.iss;
    a.prev_trap = e.trap || took;
    if (took) a.e = Eff(), a.e.trap = false;
    a.cmem |= CRESET;
    a.cknown = a.cmem;
    u32 f3 = (s.word >> 12) & 7;
    if (a.prev_trap) a.cmem |= 1u << cslot(0x341);
    else if ((s.word & 127) == 0x73 && (f3 & 3) && csr_kind(s.word >> 20) == CSR_REAL && ((f3 & 3) == 1 || ((s.word >> 15) & 31))) a.cmem |= 1u << cslot(s.word >> 20);
    return true;
  };
}
static bool mk(W& w, C& x, u32 mst = 0, u32 mie = 0) { return w.setup(x, 0x00040400, mst, mie) && w.li(x, 8, 0x1000) && w.li(x, 9, 0x800) && w.li(x, 10, 0x00080800); }
static bool ex(W& w, C& c, const Sym& s, u32 fd = 1, u32 md = 1, u8 q = 0) { Step x; x.word = s.word; x.rdata = s.rdata; x.fd = fd; x.md = md; x.irq0 = q; x.junk = fd & 3; return w.exec(c, x); }
static void stream(Shared* sh, const char* out) {
  auto a = alphabet(true, true);
  long n = a.size();
  auto only_rvfi = [](W& w) { if (w.kind != V_EXTRA) w.kind = V_ABORT; };
  // pairs x waits x interrupt enables/levels, then a nop so that both are reported
  parallel<T>(*sh, n * n * 2, [&](W& w, long i) {
    C c;
    int cfg = i & 1;
    if (!w.base(1 + cfg, c, [&](C& x) { return mk(w, x, cfg ? MIE_BIT : 0, cfg ? MEI_BIT : 0); })) return;
    auto &s = a[i / 2 / n], &t = a[i / 2 % n];
    for (int fd = 1; fd <= 3; fd++) for (int md = 1; md <= 3; md++) for (int q = 0; q < 4; q++) {
      if (!tier && (fd + md) % 2 && q) continue;
      C d = c;
      bool ok = ex(w, d, s, fd, md, q & 1) && ex(w, d, t, md, fd, q >> 1) && w.feed(d, NOP) && w.feed(d, NOP);
      if (ok) w.leaf("pair"); else { only_rvfi(w); if (!w.report("pair")) return; }
    }
  }, false, 140, init);
  // triples
  parallel<T>(*sh, n * n, [&](W& w, long i) {
    C c, d;
    if (!w.base(1, c, [&](C& x) { return mk(w, x); })) return;
    if (!ex(w, c, a[i / n]) || !ex(w, c, a[i % n])) { only_rvfi(w); w.report("triple"); return; }
    for (auto& s : a) {
      d = c;
      bool ok = ex(w, d, s) && w.feed(d, NOP) && w.feed(d, NOP);
      if (ok) w.leaf("triple"); else { only_rvfi(w); if (!w.report("triple")) return; }
    }
  }, false, 140, init);
  // register numbers and values
  parallel<T>(*sh, 1024, [&](W& w, long i) {
    C c;
    if (!w.base(1, c, [&](C& x) { return mk(w, x); })) return;
    u32 rd = i & 31, r1 = i >> 5;
    std::vector<u32> ws;
    for (auto& o : OPS) { ws.push_back(R(o.f7, rd, r1, o.f3, rd)); ws.push_back(R(o.f7, r1, rd, o.f3, r1)); }
    for (u32 r2 = 0; r2 < 32; r2++) ws.push_back(R(0, r2, r1, 0, rd));
    for (auto& o : OPIS) ws.push_back(I(0xABC, r1, o.f3, rd));
    for (auto& o : SHIS) ws.push_back(I(o.f7 << 5 | 7, r1, o.f3, rd));
    for (auto& o : LOADS) for (u32 k = 0; k < 4; k++) ws.push_back(I(k, r1, o.f3, rd, 3));
    for (auto& o : STORES) for (u32 k = 0; k < 4; k++) ws.push_back(S(k, rd, r1, o.f3));
    for (auto& o : BRS) { ws.push_back(B(32, rd, r1, o.f3)); ws.push_back(B(34, rd, r1, o.f3)); }
    for (u32 k = 0; k < 4; k++) ws.push_back(I(k, r1, 0, rd, 0x67));
    for (u32 m : {0x300u, 0x304u, 0x305u, 0x340u, 0x341u, 0x342u, 0x344u, 0xF11u, 0xF12u, 0xF13u, 0xF14u, 0xF15u, 0x301u, 0x310u, 0x343u, 0x320u, 0x323u, 0xB00u, 0xB02u, 0xB03u, 0xB80u, 0xB82u, 0xB83u, 0xB04u, 0x302u, 0x7C0u})
      for (u32 f3 : {1, 2, 3, 5, 6, 7}) ws.push_back(CSR(m, r1, f3, rd));
    ws.push_back(U(0x89000 + r1, rd, 0x37)); ws.push_back(U(0x89000 + r1, rd, 0x17)); ws.push_back(J(64, rd)); ws.push_back(J(66, rd)); ws.push_back(rd << 7 | r1 << 15 | 0x0F); ws.push_back(rd << 7 | r1 << 15 | 0x7F);
    for (u32 x : ws) {
      C d = c;
      bool ok = ex(w, d, Sym{x, "", 0x89C4D6E8}) && w.feed(d, NOP) && w.feed(d, NOP);
      if (ok) w.leaf("registers"); else { only_rvfi(w); if (!w.report("registers")) return; }
    }
  }, false, 140, init);
  auto ev = events();
  long ne = ev.size();
  auto fin = [&](W& w, bool ok, const char* l) { if (ok) { w.leaf(l); return true; } only_rvfi(w); return w.report(l); };
  auto st_of = [](const Sym& x) { Step r; r.word = x.word; r.rdata = x.rdata; r.irq0 = x.irq; return r; };
  // histories with interrupts, under every idle-bus pattern
  parallel<T>(*sh, ne * ne, [&](W& w, long i) {
    C c;
    if (!w.base(2, c, [&](C& x) { return mk(w, x, MIE_BIT, MEI_BIT); })) return;
    Step x = st_of(ev[i / ne]), y = st_of(ev[i % ne]);
    C b = c;
    if (w.exec(b, x) && w.exec(b, y)) {
      for (auto& z : ev) {
        if (!tier && !z.irq && !x.irq0 && !y.irq0) continue;
        C d = b;
        if (!fin(w, w.exec(d, st_of(z)) && w.feed(d, NOP) && w.feed(d, NOP), "history")) return;
      }
    } else if (!fin(w, false, "history")) return;
    for (int j = 0; j < N_JUNK; j++) {
      if (!tier && (j + i) % 3) continue;
      C d = c;
      x.junk = j; y.junk = (5 * j + 3) % N_JUNK; x.fd = y.md = 1 + (j & 1); x.md = y.fd = 1 + ((j >> 1) & 1);
      if (!fin(w, w.exec(d, x) && w.exec(d, y) && w.feed(d, NOP) && w.feed(d, NOP), "idle bus")) return;
    }
  }, false, 140, init);
  // the interrupt line moving at any cycle of any instruction
  parallel<T>(*sh, n * 4, [&](W& w, long i) {
    C c;
    int cfg = i & 3;
    if (!w.base(3 + cfg, c, [&](C& x) { return mk(w, x, cfg & 1 ? MIE_BIT : 0, cfg & 2 ? MEI_BIT : 0); })) return;
    int M = tier ? 60 : 24;
    for (int pol = 0; pol < 2; pol++) for (int on = 0; on <= M; on++) for (int off = on + 1; off <= M + 1; off++) {
      C d = c;
      Step x = st_of(a[i / 4]);
      x.irq0 = pol; x.ion = on; x.ioff = off;
      bool ok = w.exec(d, x);
      bool tail = off > (int)w.last_cycles;
      if (!fin(w, ok && w.feed(d, NOP) && w.feed(d, NOP), "line")) return;
      if (tail) break;
    }
  }, false, 140, init);
  // program counters
  auto pv = pcs();
  parallel<T>(*sh, (long)pv.size(), [&](W& w, long i) {
    C c;
    if (!w.base(8000 + i, c, [&](C& x) { return mk(w, x, MIE_BIT, MEI_BIT) && w.li(x, 30, pv[i]) && w.feed(x, I(0, 30, 0, 0, 0x67)); })) return;
    for (auto& f : ev) { C d = c; if (!fin(w, w.exec(d, st_of(f)) && w.feed(d, NOP) && w.feed(d, NOP), "pc")) return; }
  }, false, 140, init);
  // operand values and immediates
  auto v = values(tier ? 2 : 1);
  parallel<T>(*sh, (long)v.size(), [&](W& w, long i) {
    C c;
    if (!w.base(1, c, [&](C& x) { return mk(w, x); })) return;
    if (!w.li(c, 11, v[i])) { fin(w, false, "values"); return; }
    for (u32 b : v) {
      C d = c;
      if (!w.li(d, 12, b)) { if (!fin(w, false, "values")) return; continue; }
      std::vector<Sym> ws;
      for (auto& o : OPS) ws.push_back({R(o.f7, 12, 11, o.f3, 13), "", 0});
      for (auto& o : BRS) ws.push_back({B(64, 12, 11, o.f3), "", 0});
      for (auto& o : LOADS) ws.push_back({I(b, 11, o.f3, 13, 3), "", b});
      for (auto& o : STORES) ws.push_back({S(v[i] >> 3, 12, 11, o.f3), "", b});
      ws.push_back({I(b, 11, 0, 13, 0x67), "", 0}); ws.push_back({CSR(MSCRATCH, 12, 1, 13), "", 0}); ws.push_back({CSR(MSCRATCH, 11, 3, 13), "", 0}); ws.push_back({CSR(MSTATUS, 12, 1, 13), "", 0}); ws.push_back({CSR(MCAUSE, 12, 1, 13), "", 0}); ws.push_back({CSR(MEPC, 12, 1, 13), "", 0}); ws.push_back({CSR(MTVEC, 12, 1, 13), "", 0});
      for (auto& x : ws) { C e = d; if (!fin(w, w.exec(e, st_of(x)) && w.feed(e, NOP) && w.feed(e, NOP), "values")) return; }
    }
    for (u32 k = 0; k < 4096; k++) for (u32 x : {I(k, 11, 0, 13), I(k, 11, 4, 13), I(k, 11, 2, 13, 3), I(k, 11, 0, 13, 3), S(k, 8, 11, 1), S(k, 8, 11, 0), I(k, 11, 0, 13, 0x67), B(k << 1, 11, 11, 0)}) {
      if (!tier && (k + i) % 4) continue;
      C e = c;
      if (!fin(w, w.exec(e, st_of({x, "", 0x89C4D6E8})) && w.feed(e, NOP), "immediates")) return;
    }
  }, false, 140, init);
  parallel<T>(*sh, 4096, [&](W& w, long i) {
    C c;
    if (!w.base(1, c, [&](C& x) { return mk(w, x); })) return;
    for (u32 k = 0; k < 256; k += tier ? 1 : 8) for (u32 op : {0x37u, 0x17u, 0x6Fu}) {
      C e = c;
      if (!fin(w, w.exec(e, st_of({((u32)i << 8 | (k + i % 8) % 256) << 12 | (1 + i % 31) << 7 | op, "", 0})) && w.feed(e, NOP), "immediates")) return;
    }
  }, false, 140, init);
  // every legal or illegal word with distinct fields
  static const u32 RF[] = {0, 11, 31};
  parallel<T>(*sh, 128 * 128, [&](W& w, long i) {
    C c;
    if (!w.base(1, c, [&](C& x) { return mk(w, x); })) return;
    for (u32 f3 = 0; f3 < 8; f3++) for (u32 x : RF) for (u32 y : RF) for (u32 d : RF) {
      if (!tier && d != RF[(x + y) % 3]) continue;
      C e = c;
      if (!fin(w, w.exec(e, st_of({R(i >> 7, x, y, f3, d, i & 127), "", 0x89C4D6E8})) && w.feed(e, NOP), "word")) return;
    }
  }, false, 140, init);
  // reset at every cycle, then the stream starts again
  parallel<T>(*sh, n * 2, [&](W& w, long i) {
    C c;
    int cfg = i & 1;
    if (!w.base(1 + cfg, c, [&](C& x) { return mk(w, x, cfg ? MIE_BIT : 0, cfg ? MEI_BIT : 0); })) return;
    for (int at = 1; at < 80; at++) for (int du = 1; du <= (tier ? 3 : 1); du++) for (int q = 0; q < 2; q++) for (int ak = 0; ak < 2; ak++) {
      C d = c;
      Step x = st_of(a[i / 2]);
      x.rst_at = at; x.rst_n = du; x.rst_ack = ak; x.irq0 = q; x.fd = x.md = 2;
      bool ok = w.exec(d, x);
      if (ok && !w.resets) { at = 999; break; }
      d.iss.mie = 0;
      if (!fin(w, ok && w.setup(d) && w.li(d, 8, 0x1000) && w.exec(d, st_of(a[(at + i) % n])) && w.feed(d, NOP) && w.feed(d, NOP), "reset")) return;
    }
  }, false, 140, init);
  // long histories and long waits
  std::atomic<bool> stop{false};
  parallel<T>(*sh, 2 * ne, [&](W& w, long i) {
    C c;
    int cfg = i & 1;
    if (stop || !w.base(1 + cfg, c, [&](C& x) { return mk(w, x, cfg ? MIE_BIT : 0, cfg ? MEI_BIT : 0); })) return;
    bool walking = i >= ne;
    long stride = 1 + (i - ne), pos = i;
    for (int k = 0; k < (i % 24 == 1 ? 140000 : tier ? 70000 : 5000) && !stop; k++) {
      if (walking) { pos = (pos + stride) % ne; if (k % ne == ne - 1 && !(ne % stride)) pos++; }
      bool ok = w.exec(c, st_of(walking ? ev[pos % ne] : ev[i]));
      if (ok && k % 251 == 250) ok = w.li(c, 8, 0x1000) && w.li(c, 9, 0x800) && w.li(c, 10, 0x80800);
      if (!ok) { only_rvfi(w); if (!stop.exchange(true)) w.report("long history"); return; }
    }
    w.leaves++;
  }, false, 140, init);
  std::vector<u32> wl;
  for (u32 d = 4; d <= 260; d++) wl.push_back(d);
  for (u32 d : {511, 512, 513, 1025, 4097, 65537}) wl.push_back(d);
  parallel<T>(*sh, n, [&](W& w, long i) {
    C c;
    if (!w.base(1, c, [&](C& x) { return mk(w, x); })) return;
    for (u32 d : wl) for (int which = 0; which < 2; which++) {
      C e = c;
      Step x = st_of(a[i]);
      x.fd = which ? 1 : d; x.md = which ? d : 1; x.junk = 2;
      bool ok = w.exec(e, x) && w.feed(e, NOP) && w.feed(e, NOP);
      if (ok && d > 40) { w.leaves++; continue; }
      if (!fin(w, ok, "long wait")) return;
    }
  }, false, 140, init);
  put_result(out, *sh, true, "all pairs of the instruction forms x waits 1..3 x interrupt enables and levels, all triples of forms without interrupts, all 32x32 rd/rs1 of every form (32x32x32 for add) and 26 CSRs x 6 operations; histories with interrupts under every idle-bus pattern; the line moving at any cycle of any form; about 120 program counters; operand values, immediates, field grid; reset at every cycle; long histories and waits; every report compared field by field");
}
static void csrs(Shared* sh, const char* out) {
  auto a = events();
  long n = a.size();
  auto fin = [&](W& w, bool ok, const char* l) { if (ok) { w.leaf(l); return true; } if (w.kind != V_EXTRA) w.kind = V_ABORT; return w.report(l); };
  auto go = [&](W& w, const C& b, u32 word, const char* l, u32 fd = 1, int junk = 0, u8 q = 0) {
    C e = b;
    Step x; x.word = word; x.rdata = 0x89C4D6E8; x.fd = fd; x.junk = junk; x.irq0 = q;
    return fin(w, w.exec(e, x) && w.feed(e, NOP) && w.feed(e, NOP), l);
  };
  auto st_of = [](const Sym& x) { Step r; r.word = x.word; r.rdata = x.rdata; r.irq0 = x.irq; return r; };
  static const u32 NUM[] = {0x300, 0x304, 0x305, 0x340, 0x341, 0x342, 0x344, 0x301, 0xF11, 0xF12, 0xF13, 0xF14, 0xF15, 0x310, 0x343, 0x320, 0x323, 0xB00, 0xB02, 0xB03, 0xB80, 0xB82, 0xB83};
  static const u32 OP[] = {1, 2, 3, 5, 6, 7};
  std::vector<u32> F;
  for (u32 m : NUM) for (u32 f : OP) { F.push_back(CSR(m, 9, f, 3)); F.push_back(CSR(m, 0, f, 3)); F.push_back(CSR(m, 9, f, 0)); }
  long nf = F.size();
  // a CSR access after every event, with waits, idle-bus patterns, line levels
  parallel<T>(*sh, n * 4, [&](W& w, long i) {
    C c;
    int cfg = i & 3;
    if (!w.base(1 + cfg, c, [&](C& x) { return mk(w, x, cfg & 1 ? MIE_BIT : 0, cfg & 2 ? MEI_BIT : 0); })) return;
    for (int fd = 1; fd <= 2; fd++) {
      C d = c;
      Step x = st_of(a[i / 4]); x.fd = x.md = fd;
      if (!w.exec(d, x)) { if (!fin(w, false, "after")) return; continue; }
      for (u32 f : F) for (int q = 0; q < 2; q++) for (int k = 0; k < (tier ? N_JUNK : 2); k++)
        if (!go(w, d, f, "after", 1 + (k & 1), (k + f / 128) % N_JUNK, q)) return;
    }
  }, false, 140, init);
  // two accesses in a row, and one after another event
  parallel<T>(*sh, nf, [&](W& w, long i) {
    C c;
    if (!w.base(1, c, [&](C& x) { return mk(w, x); })) return;
    Step x; x.word = F[i];
    if (!w.exec(c, x)) { fin(w, false, "pair"); return; }
    for (u32 f : F) if (!go(w, c, f, "pair")) return;
    for (auto& e : a) {
      C d = c;
      if (!w.exec(d, st_of(e))) { if (!fin(w, false, "around")) return; continue; }
      for (long k = tier ? 0 : i % 3; k < nf; k += tier ? 1 : 3) if (!go(w, d, F[k], "around")) return;
    }
  }, false, 140, init);
  // values in the CSR and in the operand
  auto v = values(1);
  parallel<T>(*sh, (long)v.size(), [&](W& w, long i) {
    C c;
    if (!w.base(1, c, [&](C& x) { return mk(w, x); })) return;
    if (!w.li(c, 11, v[i])) { fin(w, false, "values"); return; }
    for (u32 m : NUM) for (u32 f : {1u, 2u, 3u}) {
      if (!go(w, c, CSR(m, 11, f, 3), "values") || !go(w, c, CSR(m, 11, f, 0), "values")) return;
      if (csr_kind(m) != CSR_REAL) continue;
      C d = c;
      if (!w.csrw(d, m, 11)) { if (!fin(w, false, "values")) return; continue; }
      for (u32 z = 0; z < 32; z++) if (!go(w, d, CSR(m, z, f | 4, 3), "values")) return;
      for (u32 z = 0; z < 32; z++) if (!go(w, d, CSR(m, z, f, 3), "values")) return;
    }
  }, false, 140, init);
  // registers
  parallel<T>(*sh, 1024, [&](W& w, long i) {
    C c;
    if (!w.base(1, c, [&](C& x) { return mk(w, x); })) return;
    for (u32 m : NUM) for (u32 f : OP) if (!go(w, c, CSR(m, i >> 5, f, i & 31), "registers")) return;
  }, false, 140, init);
  // all 4096 numbers: no other access disturbs a channel
  parallel<T>(*sh, 4096, [&](W& w, long i) {
    C c;
    if (!w.base(1, c, [&](C& x) { return mk(w, x); })) return;
    for (u32 f : OP) for (u32 r : {0u, 9u}) {
      C d = c;
      Step x; x.word = CSR(i, r, f, 3);
      if (!w.exec(d, x)) { if (!fin(w, false, "number")) return; continue; }
      for (u32 m : {0x300u, 0x340u, 0x341u, 0xB80u, 0xB03u}) if (!go(w, d, CSR(m, 0, 2, 3), "number")) return;
    }
  }, false, 140, init);
  // triples of events, then every channel read
  parallel<T>(*sh, n * n, [&](W& w, long i) {
    C c;
    if (!w.base(2, c, [&](C& x) { return mk(w, x, MIE_BIT, MEI_BIT); })) return;
    if (!w.exec(c, st_of(a[i / n])) || !w.exec(c, st_of(a[i % n]))) { fin(w, false, "history"); return; }
    for (auto& z : a) {
      if (!tier && !z.irq && (&z - &a[0] + i) % 4) continue;
      C d = c;
      bool ok = w.exec(d, st_of(z));
      for (u32 m : {0x300u, 0x304u, 0x305u, 0x340u, 0x341u, 0x342u, 0x344u}) ok = ok && w.feed(d, CSR(m, 0, 2, 3));
      if (!fin(w, ok && w.feed(d, NOP) && w.feed(d, NOP), "history")) return;
    }
  }, false, 140, init);
  // program counters in mepc, reset at every cycle
  auto pv = pcs();
  parallel<T>(*sh, (long)pv.size(), [&](W& w, long i) {
    C c;
    if (!w.base(8000 + i, c, [&](C& x) { return mk(w, x, MIE_BIT, MEI_BIT) && w.li(x, 30, pv[i]) && w.feed(x, I(0, 30, 0, 0, 0x67)); })) return;
    for (auto& f : a) { C d = c; if (!fin(w, w.exec(d, st_of(f)) && w.feed(d, CSR(MEPC, 0, 2, 3)) && w.feed(d, CSR(MEPC, 9, 3, 3)) && w.feed(d, NOP) && w.feed(d, NOP), "pc")) return; }
  }, false, 140, init);
  parallel<T>(*sh, nf, [&](W& w, long i) {
    C c;
    if (!w.base(1, c, [&](C& x) { return mk(w, x, MIE_BIT, MEI_BIT); })) return;
    for (int at = 1; at < 30; at++) {
      C d = c;
      Step x; x.word = F[i]; x.rst_at = at; x.rst_n = 1;
      bool ok = w.exec(d, x);
      if (ok && !w.resets) break;
      d.iss.mie = 0;
      bool more = fin(w, ok && w.setup(d) && w.feed(d, F[(i * 7 + at) % nf]) && w.feed(d, CSR(MSCRATCH, 9, 1, 3)) && w.feed(d, NOP) && w.feed(d, NOP), "reset");
      if (!more) return;
    }
  }, false, 140, init);
  put_result(out, *sh, true, "414 accesses (23 CSRs x 6 operations x source/destination zero or not) after every event x interrupt enables x waits x idle-bus patterns, after every other access, and with any event between two; about 260 values in the CSR and the operand with every register and immediate; 32x32 registers; all 4096 CSR numbers followed by reads; event triples followed by a read of each CSR; about 120 program counters; reset at every cycle; the CSR channels of every report compared");
}
int main(int argc, char** argv) {
  csr_mode = !strcmp(argv[1], "csr");
  tier = !strcmp(argv[2], "thorough");
  Shared* sh = new Shared;
  if (csr_mode) csrs(sh, argv[3]); else stream(sh, argv[3]);
  return 0;
}
