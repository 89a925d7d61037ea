// C27: Decode on every word, against the ISA.  dec <tier> <out.json>
#include "dut_dec.h"
#include "unit.h"
typedef T_dec_0 T;
static int tier;
static bool is_csr(u32 w) { u32 f3 = w >> 12 & 7; return (w & 127) == 0x73 && f3 && f3 != 4; }
// cause of the exception the decoder must find in w, -1 if none
static int cause_of(u32 w) {
  Iss s; memset(&s, 0, sizeof s);
  u32 op = w & 127;
  if (op == 0x37 || op == 0x17 || op == 0x6F) return -1;
  Eff e = iss_step(s, w, 0, false);
  return e.trap && (e.cause == C_ILLEGAL || e.cause == C_BREAK || e.cause == C_ECALL) ? (int)e.cause : -1;
}
static bool imm_of(u32 w, u32* v) {
  switch (w & 127) {
    case 0x13: case 0x67: case 0x03: *v = immI(w); return true;
    case 0x37: case 0x17: *v = w & 0xFFFFF000; return true;
    case 0x6F: *v = immJ(w); return true;
    case 0x63: *v = immB(w); return true;
    case 0x23: *v = immS(w); return true;
  }
  return false;
}
static int enc_of(u32 w) {
  switch (w >> 20) {
    case MSTATUS: return CSR_MSTATUS; case MIE_: return CSR_MIE; case MTVEC: return CSR_MTVEC; case MSCRATCH: return CSR_MSCRATCH;
    case MEPC: return CSR_MEPC; case MCAUSE: return CSR_MCAUSE; case MIP_: return CSR_MIP;
  }
  return -1;
}
struct Mod {
  u32 imm; short enc, exc; u8 a, b, d; bool kf, ki, kx, busy; short later;
  bool loose(int) const { return false; }
  void por() { memset(this, 0, sizeof *this); enc = -1; }
  void expect(const u64* in, u64* v, u64* m) const {
    u32 w = in[T::I_insn];
    v[T::O_opcode] = w >> 2 & 31; m[T::O_opcode] = 31;
    v[T::O_src_a_unreg] = w >> 15 & 31; m[T::O_src_a_unreg] = 31;
    if (kf) { v[T::O_src_a] = a; v[T::O_src_b] = b; v[T::O_dst] = d; m[T::O_src_a] = m[T::O_src_b] = m[T::O_dst] = 31; }
    if (ki) v[T::O_imm] = imm, m[T::O_imm] = 0xFFFFFFFF;
    if (enc >= 0) v[T::O_csr_encoding] = enc, m[T::O_csr_encoding] = 15;
    if (kx) { v[T::O_exception] = exc < 0 ? 0 : (u64)exc << 1 | 1; m[T::O_exception] = exc < 0 ? 1 : 0xFFFFFFFF; }
  }
  void next(const u64* in) {
    u32 w = in[T::I_insn];
    kx = false;
    bool second = busy;
    busy = false; enc = -1;
    if (second && !in[T::I_do_decode]) kx = true, exc = later;
    if (in[T::I_do_decode]) {
      kf = true; a = w >> 15 & 31; b = w >> 20 & 31; d = w >> 7 & 31;
      ki = imm_of(w, &imm);
      if (is_csr(w)) { busy = true; later = cause_of(w); if ((int)later < 0) enc = enc_of(w); }
      else if (!second) { kx = true; exc = cause_of(w); }
    }
    if (in[0]) kf = ki = kx = busy = false, enc = -1;
  }
};
typedef Unit<T, Mod> Ex;
typedef Ex::Node N;
typedef Ex::In In;
static In in(int dec, u32 w, int rst = 0) { In i; i[0] = rst; i[T::I_do_decode] = dec; i[T::I_insn] = w; return i; }
// decode w from node p, then two cycles of other words on the bus
static bool one(Ex& u, const N& p, u32 w, u32 junk, N* c) {
  if (!u.go(p, in(1, w), c[0])) return false;
  if (!u.go(c[0], in(0, junk), c[1])) return false;
  if (is_csr(w) && !u.go(c[1], in(0, ~junk), c[2])) return false;
  u.leaf(is_csr(w) ? c[2] : c[1]);
  return true;
}
int main(int argc, char** argv) {
  tier = !strcmp(argv[1], "thorough");
  CShared sh;
  std::vector<std::function<void()>> jobs;
  for (u32 f7 = 0; f7 < 128; f7++) jobs.push_back([&sh, f7] {   // fields
    Ex u(sh, "every opcode, funct3, funct7 x registers 0,1,2,3,5,10,16,31");
    N r = u.root(), c[3];
    static const u32 RG[] = {0, 1, 2, 3, 5, 10, 16, 31};
    for (u32 op = 0; op < 128; op++) for (u32 f3 = 0; f3 < 8; f3++) for (u32 k = 0; k < 512; k++) {
      u32 w = R(f7, RG[k & 7], RG[k >> 3 & 7], f3, RG[k >> 6], op);
      if (!one(u, r, w, w * 0x9E3779B9u, c)) return;
    }
  });
  for (u32 q = 0; q < 32; q++) jobs.push_back([&sh, q] {
    Ex u(sh, "every csr number, immediate and field value");
    N r = u.root(), c[3];
    for (u32 n = q * 128; n < q * 128 + 128; n++) for (u32 f3 = 0; f3 < 8; f3++) for (u32 r1 : {0, 1, 16, 31}) for (u32 rd : {0, 1, 31}) {
      if (!one(u, r, CSR(n, r1, f3, rd), 0xFFFFFFFF, c) || !one(u, r, CSR(n, r1, f3, rd), 0, c) || !one(u, r, CSR(n, r1, f3, rd), CSR(n ^ 0x300, ~r1 & 31, ~f3 & 7, rd), c)) return;
      for (u32 op : {0x13, 0x03, 0x67}) if (!one(u, r, I(n, r1, f3, rd, op), ~n, c)) return;
      if (!one(u, r, S(n, r1, rd, f3), ~n, c) || !one(u, r, B(n << 1, r1, rd, f3), ~n, c)) return;
    }
    for (u32 v = q << 15; v < (q + 1) << 15; v++) for (u32 op : {0x37, 0x17, 0x6F}) if (!one(u, r, U(v, v & 31, op), v, c)) return;
    for (u32 x : {0u, 0xFFFFFFFFu, (u32)ECALL, (u32)EBREAK, (u32)MRET, (u32)WFI, (u32)FENCE, (u32)NOP}) for (int i = 0; i < 32; i++) for (int j = 0; j <= i; j++) {
      u32 w = x ^ 1u << i ^ (i == j ? 0 : 1u << j);
      if (i == (int)q) { if (!one(u, r, w, ~w, c)) return; for (int k = 0; k < j; k++) if (!one(u, r, w ^ 1u << k, w, c)) return; }
    }
  });
  static std::vector<u32> F;
  for (auto& s : alphabet(true, true)) F.push_back(s.word);
  for (auto& o : STORES) F.push_back(S(-1, 31, 31, o.f3));
  for (u32 w : {CSR(0xC00, 0, 2, 1), CSR(0xF14, 0, 2, 31), CSR(0xF14, 0, 1, 0), CSR(0x7C0, 1, 1, 1), CSR(MIP_, 31, 7, 31)}) F.push_back(w);
  for (size_t k = 0; k < F.size(); k++) jobs.push_back([&sh, k] {   // histories
    Ex u(sh, "pairs of decodes with pauses, resets and other words between");
    N r = u.root(), c[3], p[4], d[3];
    if (!one(u, r, F[k], F[(k * 7 + 3) % F.size()], c)) return;
    for (size_t b = 0; b < F.size(); b++) {
      u32 w = F[b];
      if (!one(u, c[2 - !is_csr(F[k])], w, ~w, d) || !one(u, c[1 - !is_csr(F[k])], w, F[k], d)) return;    // at once
      if (!u.go(c[1], in(0, w), p[0]) || !u.go(p[0], in(0, ~w), p[1]) || !u.go(p[1], in(0, F[k]), p[2])) return;
      if (!one(u, p[2], w, F[k], d)) return;
      if (!u.go(c[0], in(0, w, 1), p[0]) || !u.go(p[0], in(0, F[k], 1), p[1]) || !one(u, p[1], w, F[k], d)) return;
      if (!u.go(c[0], in(0, w, 1), p[0]) || !one(u, p[0], w, F[k], d)) return;
      if (tier) for (u32 x : F) { N e[3]; if (!one(u, d[1 + is_csr(w)], x, w, e)) return; }
    }
  });
  for (u32 q = 0; q < 4096; q++) jobs.push_back([&sh, q] {
    Ex u(sh, "all 2^32 words");
    N r = u.root(), c[3];
    for (u32 k = 0; k < 1u << 20; k++) {
      u32 w = q << 20 | k;
      if (!one(u, r, w, w * 0x9E3779B9u, c)) return;
      if (u.keep.size() > 1) u.keep.resize(1);
    }
    if (q & 15) u.keep.clear();
  });
  crun(jobs);
  cfinish(sh, argv[2]);
}
