// Reference model: RV32I + Zicsr, machine mode only, written from the ISA
// manuals and doc/development/internals.md (list of CSRs).  No microcode, no
// timing, no bus: one call per instruction.
#pragma once
#include <cstdint>
typedef uint32_t u32;
typedef uint64_t u64;
typedef uint8_t u8;
typedef uint16_t u16;

enum : u32 { MIE_BIT = 1u << 3, MPIE_BIT = 1u << 7, MEI_BIT = 1u << 11, MPP_M = 3u << 11 };
enum { C_INSN_MIS = 0, C_ILLEGAL = 2, C_BREAK = 3, C_LOAD_MIS = 4, C_STORE_MIS = 6, C_ECALL = 11 };

struct Iss {
  u32 x[32];
  u32 pc;
  u32 mstatus;  // only MIE, MPIE stored
  u32 mie;      // only MEIE stored
  u32 mtvec, mscratch, mepc, mcause;
};

struct Eff {
  bool mem = false, we = false, trap = false;
  u32 adr = 0;    // word address
  u8 sel = 0;
  u32 wdata = 0;  // valid on selected lanes
  u32 cause = 0;
  bool mip_read = false;  // rd received the interrupt line
};

enum CsrKind { CSR_ILL, CSR_RO0, CSR_RO0_TRAPW, CSR_REAL };

static inline CsrKind csr_kind(u32 a) {
  switch (a) {
    case 0x300: case 0x304: case 0x305: case 0x340: case 0x341: case 0x342: case 0x344:
      return CSR_REAL;
    case 0xF11: case 0xF12: case 0xF13: case 0xF14: case 0xF15:
      return CSR_RO0_TRAPW;
    case 0x301: case 0x310: case 0x320: case 0x343:
    case 0xB00: case 0xB02: case 0xB80: case 0xB82:
      return CSR_RO0;
  }
  if (a >= 0xB03 && a <= 0xB1F) return CSR_RO0;
  if (a >= 0xB83 && a <= 0xB9F) return CSR_RO0;
  if (a >= 0x323 && a <= 0x33F) return CSR_RO0;
  return CSR_ILL;
}

static inline u32 csr_get(const Iss& c, u32 a, bool irq) {
  switch (a) {
    case 0x300: return c.mstatus | MPP_M;
    case 0x304: return c.mie;
    case 0x305: return c.mtvec;
    case 0x340: return c.mscratch;
    case 0x341: return c.mepc;
    case 0x342: return c.mcause;
    case 0x344: return irq ? MEI_BIT : 0;
  }
  return 0;
}

static inline void csr_set(Iss& c, u32 a, u32 v) {
  switch (a) {
    case 0x300: c.mstatus = v & (MIE_BIT | MPIE_BIT); break;
    case 0x304: c.mie = v & MEI_BIT; break;
    case 0x305: c.mtvec = v & ~3u; break;
    case 0x340: c.mscratch = v; break;
    case 0x341: c.mepc = v & ~3u; break;
    case 0x342: c.mcause = v; break;
  }
}

static inline void iss_trap(Iss& c, u32 cause) {
  c.mepc = c.pc;
  c.mcause = cause;
  c.mstatus = (c.mstatus & MIE_BIT) ? MPIE_BIT : 0;
  c.pc = c.mtvec;
}

static inline int32_t sx(u32 v, int bits) { return (int32_t)(v << (32 - bits)) >> (32 - bits); }
static inline u32 immI(u32 w) { return (u32)((int32_t)w >> 20); }
static inline u32 immS(u32 w) { return (u32)sx(((w >> 25) << 5) | ((w >> 7) & 31), 12); }
static inline u32 immB(u32 w) {
  return (u32)sx((((w >> 31) & 1) << 12) | (((w >> 7) & 1) << 11) | (((w >> 25) & 63) << 5) | (((w >> 8) & 15) << 1), 13);
}
static inline u32 immJ(u32 w) {
  return (u32)sx((((w >> 31) & 1) << 20) | (((w >> 12) & 255) << 12) | (((w >> 20) & 1) << 11) | (((w >> 21) & 1023) << 1), 21);
}

static inline u32 alu(u32 f3, bool alt, u32 a, u32 b) {
  switch (f3) {
    case 0: return alt ? a - b : a + b;
    case 1: return a << (b & 31);
    case 2: return (int32_t)a < (int32_t)b;
    case 3: return a < b;
    case 4: return a ^ b;
    case 5: return alt ? (u32)((int32_t)a >> (b & 31)) : a >> (b & 31);
    case 6: return a | b;
    default: return a & b;
  }
}

// Executes w.  rdata: the word a load would see on the bus.  irq: level of the
// interrupt line as a read of mip would see it.
static inline Eff iss_step(Iss& c, u32 w, u32 rdata, bool irq) {
  Eff e;
  u32 op = w & 127, rd = (w >> 7) & 31, f3 = (w >> 12) & 7, r1 = (w >> 15) & 31, r2 = (w >> 20) & 31, f7 = w >> 25;
  u32 a = c.x[r1], b = c.x[r2], npc = c.pc + 4, val = 0;
  bool wr = false;
  auto trap = [&](u32 cause) { e.trap = true; e.cause = cause; iss_trap(c, cause); };
  switch (op) {
    case 0x37: val = w & 0xFFFFF000u; wr = true; break;
    case 0x17: val = c.pc + (w & 0xFFFFF000u); wr = true; break;
    case 0x13:
      if ((f3 == 1 && f7 != 0) || (f3 == 5 && f7 != 0 && f7 != 0x20)) { trap(C_ILLEGAL); return e; }
      val = alu(f3, f3 == 5 && f7 == 0x20, a, (f3 == 1 || f3 == 5) ? r2 : immI(w)); wr = true; break;
    case 0x33:
      if (!(f7 == 0 || (f7 == 0x20 && (f3 == 0 || f3 == 5)))) { trap(C_ILLEGAL); return e; }
      val = alu(f3, f7 == 0x20, a, b); wr = true; break;
    case 0x03: {
      if (f3 == 3 || f3 >= 6) { trap(C_ILLEGAL); return e; }
      u32 ea = a + immI(w), sz = f3 & 3;
      if ((sz == 1 && (ea & 1)) || (sz == 2 && (ea & 3))) { trap(C_LOAD_MIS); return e; }
      e.mem = true; e.adr = ea >> 2;
      e.sel = sz == 2 ? 15 : sz == 1 ? (ea & 2 ? 12 : 3) : (1 << (ea & 3));
      u32 sh = rdata >> (8 * (ea & 3));
      val = sz == 2 ? rdata : sz == 1 ? (f3 & 4 ? (sh & 0xFFFF) : (u32)sx(sh & 0xFFFF, 16)) : (f3 & 4 ? (sh & 0xFF) : (u32)sx(sh & 0xFF, 8));
      wr = true; break;
    }
    case 0x23: {
      if (f3 >= 3) { trap(C_ILLEGAL); return e; }
      u32 ea = a + immS(w);
      if ((f3 == 1 && (ea & 1)) || (f3 == 2 && (ea & 3))) { trap(C_STORE_MIS); return e; }
      e.mem = true; e.we = true; e.adr = ea >> 2;
      e.sel = f3 == 2 ? 15 : f3 == 1 ? (ea & 2 ? 12 : 3) : (1 << (ea & 3));
      e.wdata = f3 == 2 ? b : f3 == 1 ? (b & 0xFFFF) * 0x10001u : (b & 0xFF) * 0x01010101u;
      break;
    }
    case 0x63: {
      if (f3 == 2 || f3 == 3) { trap(C_ILLEGAL); return e; }
      bool t = (f3 >> 1) == 0 ? a == b : (f3 >> 1) == 2 ? (int32_t)a < (int32_t)b : a < b;
      if (f3 & 1) t = !t;
      if (t) {
        u32 tg = c.pc + immB(w);
        if (tg & 3) { trap(C_INSN_MIS); return e; }
        npc = tg;
      }
      break;
    }
    case 0x6F: {
      u32 tg = c.pc + immJ(w);
      if (tg & 3) { trap(C_INSN_MIS); return e; }
      val = c.pc + 4; wr = true; npc = tg; break;
    }
    case 0x67: {
      if (f3) { trap(C_ILLEGAL); return e; }
      u32 tg = (a + immI(w)) & ~1u;
      if (tg & 3) { trap(C_INSN_MIS); return e; }
      val = c.pc + 4; wr = true; npc = tg; break;
    }
    case 0x0F:
      if (f3) { trap(C_ILLEGAL); return e; }
      break;
    case 0x73: {
      if (w == 0x00000073) { trap(C_ECALL); return e; }
      if (w == 0x00100073) { trap(C_BREAK); return e; }
      if (w == 0x10500073) break;  // wfi: completes immediately
      if (w == 0x30200073) {
        npc = c.mepc;
        c.mstatus = ((c.mstatus & MPIE_BIT) ? MIE_BIT : 0) | MPIE_BIT;
        break;
      }
      if (f3 == 0 || f3 == 4) { trap(C_ILLEGAL); return e; }
      u32 n = w >> 20;
      CsrKind k = csr_kind(n);
      bool writes = (f3 & 3) == 1 || r1 != 0;
      if (k == CSR_ILL || (k == CSR_RO0_TRAPW && writes)) { trap(C_ILLEGAL); return e; }
      u32 old = csr_get(c, n, irq), src = (f3 & 4) ? r1 : a;
      if (writes && k == CSR_REAL)
        csr_set(c, n, (f3 & 3) == 1 ? src : (f3 & 3) == 2 ? (old | src) : (old & ~src));
      e.mip_read = n == 0x344;
      val = old; wr = true; break;
    }
    default: trap(C_ILLEGAL); return e;
  }
  if (wr && rd) c.x[rd] = val;
  c.pc = npc;
  return e;
}
