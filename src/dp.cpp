// C26: DataPath (general registers, CSR storage, program counter) against
// its documented per-cycle behaviour.  dp <tier> <out.json>
#include "dut_dp.h"
#include "unit.h"
typedef T_dp_0 T;
static int tier;
static const int CSRS[] = {CSR_MSTATUS, CSR_MIE, CSR_MTVEC, CSR_MSCRATCH, CSR_MEPC, CSR_MCAUSE, CSR_MIP};
struct Mod {
  u32 x[32], r[4];
  u32 kx;            // which of x are known
  u8 ga;             // register on the read port
  u8 kr;             // which of mtvec, mscratch, mepc, mcause are known
  bool mie, mpie, meie, gv, cv;
  u32 gd, cd, pc;    // data due on the read ports; program counter
  // Amaranth's simulator clears a memory's read data on reset, its netlist
  // does not; nothing is promised of it before the next read
  bool rz;
  bool loose(int k) const { return rz && (k == T::O_gp__dat_r || k == T::O_csr__dat_r); }
  static int slot(u64 a) { return a == CSR_MTVEC ? 0 : a == CSR_MSCRATCH ? 1 : a == CSR_MEPC ? 2 : a == CSR_MCAUSE ? 3 : -1; }
  void por() { memset(this, 0, sizeof *this); }
  u32 mstatus() const { return 3u << 11 | mie << 3 | mpie << 7; }
  void expect(const u64* in, u64* v, u64* m) const {
    m[T::O_csr__mstatus_r] = m[T::O_csr__mie_r] = m[T::O_csr__mip_r] = 0xFFFFFFFF;
    v[T::O_csr__mstatus_r] = mstatus();
    v[T::O_csr__mie_r] = meie << 11;
    v[T::O_csr__mip_r] = in[T::I_csr__mip_w] & 1 << 11;
    m[T::O_pc__dat_r] = 0x3FFFFFFF; v[T::O_pc__dat_r] = pc;
    if (gv) m[T::O_gp__dat_r] = 0xFFFFFFFF, v[T::O_gp__dat_r] = gd;
    if (cv) m[T::O_csr__dat_r] = 0xFFFFFFFF, v[T::O_csr__dat_r] = cd;
  }
  void next(const u64* in) {
    int op = in[T::I_csr__ctrl__op], ex = in[T::I_csr__ctrl__exception];
    u64 ar = in[T::I_gp__adr_r], aw = in[T::I_gp__adr_w], a = in[T::I_csr__adr];
    bool rd = in[T::I_gp__ctrl__reg_read], wr = in[T::I_gp__ctrl__reg_write] && (aw || in[T::I_gp__ctrl__allow_zero_wr]);
    u32 dw = in[T::I_csr__dat_w];
    bool om = mie, op_ = mpie;
    bool hv = gv;
    gv = cv = false;
    if (op == CSROp_NONE) {
      if (rd) {   // documented as transparent
        if (wr && aw == ar) gv = true, gd = in[T::I_gp__dat_w];
        else if (kx >> ar & 1) gv = true, gd = x[ar];
        ga = ar;
      } else gv = hv && !(wr && aw == ga);   // stays valid
      if (wr) { if (in[0]) kx &= ~(1u << aw); else x[aw] = in[T::I_gp__dat_w], kx |= 1u << aw; }
    } else if (op == CSROp_READ_CSR) {
      int s = slot(a);
      cv = true;
      if (a == CSR_MSTATUS) cd = mstatus();
      else if (a == CSR_MIE) cd = meie << 11;
      else if (a == CSR_MIP) cd = in[T::I_csr__mip_w] & 1 << 11;
      else if (s >= 0 && (kr >> s & 1)) cd = r[s];
      else cv = false;
    } else if (op == CSROp_WRITE_CSR) {
      int s = slot(a);
      if (s >= 0) { if (in[0]) kr &= ~(1 << s); else r[s] = s == 0 || s == 2 ? dw & ~3u : dw, kr |= 1 << s; }
      if (a == CSR_MSTATUS) mie = dw >> 3 & 1, mpie = dw >> 7 & 1;
      if (a == CSR_MIE) meie = dw >> 11 & 1;
    }
    if (ex == ExceptCtl_ENTER_INT) mpie = om, mie = false;
    if (ex == ExceptCtl_LEAVE_INT) mie = op_, mpie = true;
    int pa = in[T::I_pc__ctrl__action];
    if (pa == PcAction_INC) pc = (pc + 1) & 0x3FFFFFFF;
    if (pa == PcAction_LOAD_ALU_O) pc = in[T::I_pc__dat_w];
    if (in[0]) rz = true;
    else if (op == CSROp_READ_CSR || (op == CSROp_NONE && rd)) rz = false;
    if (in[0]) gv = cv = mie = mpie = meie = false, pc = 0;
  }
};
typedef Unit<T, Mod> Ex;
typedef Ex::Node N;
typedef Ex::In In;
static In none() { In i; i[T::I_csr__ctrl__op] = CSROp_NONE; i[T::I_csr__ctrl__exception] = ExceptCtl_NONE; i[T::I_pc__ctrl__action] = PcAction_HOLD; return i; }
static In gw(u64 a, u32 d, bool z = false) { In i = none(); i[T::I_gp__adr_w] = a; i[T::I_gp__dat_w] = d; i[T::I_gp__ctrl__reg_write] = 1; i[T::I_gp__ctrl__allow_zero_wr] = z; return i; }
static In gr(u64 a) { In i = none(); i[T::I_gp__adr_r] = a; i[T::I_gp__ctrl__reg_read] = 1; return i; }
static In cw(u64 a, u32 d) { In i = none(); i[T::I_csr__adr] = a; i[T::I_csr__dat_w] = d; i[T::I_csr__ctrl__op] = CSROp_WRITE_CSR; return i; }
static In cr(u64 a, bool irq = false) { In i = none(); i[T::I_csr__adr] = a; i[T::I_csr__ctrl__op] = CSROp_READ_CSR; i[T::I_csr__mip_w] = irq << 11; return i; }
static In ec(int e) { In i = none(); i[T::I_csr__ctrl__exception] = e; return i; }
static In pcl(u32 d, int a) { In i = none(); i[T::I_pc__dat_w] = d & 0x3FFFFFFF; i[T::I_pc__ctrl__action] = a; return i; }
static bool dead(const In& i) {   // CSR write to mstatus while entering/leaving: not promised
  int e = i.v[T::I_csr__ctrl__exception];
  return i.v[T::I_csr__ctrl__op] == CSROp_WRITE_CSR && i.v[T::I_csr__adr] == CSR_MSTATUS && (e == ExceptCtl_ENTER_INT || e == ExceptCtl_LEAVE_INT);
}
// every known register and CSR, one read per cycle, the result in the next
static bool readback(Ex& u, const N& n, int from = 0) {
  N c[41];
  const N* p = &n;
  for (int k = 0; k < 40; k++) {
    int j = (k + from) % 39;
    In i = k == 39 ? none() : j < 32 ? gr(j) : cr(CSRS[j - 32], j & 1);
    if (!u.go(*p, i, c[k])) return false;
    p = &c[k];
  }
  u.leaf(*p);
  return true;
}
// registers and CSRs filled with distinct values; nodes live in st
static const N* filled(Ex& u, std::vector<N>& st, u32 salt) {
  st.clear(); st.reserve(60);
  st.push_back(u.root());
  auto put = [&](const In& i) { st.emplace_back(); return u.go(st[st.size() - 2], i, st.back()); };
  for (u32 a = 0; a < 32; a++) if (!put(gw(a, (a + 1) * 0x9E3779B9u ^ salt, a == 0))) return nullptr;
  for (int a : CSRS) if (a != CSR_MIP && !put(cw(a, (a + 77) * 0x85EBCA6Bu ^ salt))) return nullptr;
  if (!put(pcl(0x2AAAAAA5 ^ salt, PcAction_LOAD_ALU_O))) return nullptr;
  return &st.back();
}
static const int EX[] = {ExceptCtl_NONE, ExceptCtl_ENTER_INT, ExceptCtl_LEAVE_INT, ExceptCtl_LATCH_DECODER, ExceptCtl_LATCH_JAL, ExceptCtl_LATCH_STORE_ADR, ExceptCtl_LATCH_LOAD_ADR};
static const int PA[] = {PcAction_HOLD, PcAction_INC, PcAction_LOAD_ALU_O};
// every control word in one cycle, then everything read back
static void words(CShared& sh, int aw) {
  Ex u(sh, "one cycle with every combination of controls and addresses");
  std::vector<N> st;
  const N* b = filled(u, st, 0);
  if (!b) return;
  for (int ar = 0; ar < 32; ar++) for (int c = 0; c < 8; c++) for (int o = 0; o < 15; o++) {
    int e = (aw + ar + c + o) % 7, p = (aw * 5 + ar + c + o) % 3;
    for (int ee = 0; ee < (tier ? 7 : 3); ee++) {
      In i = none();
      i[T::I_gp__adr_r] = ar; i[T::I_gp__adr_w] = aw; i[T::I_gp__dat_w] = 0x13572468u + ar * 0x01010101u;
      i[T::I_gp__ctrl__reg_read] = c & 1; i[T::I_gp__ctrl__reg_write] = c >> 1 & 1; i[T::I_gp__ctrl__allow_zero_wr] = c >> 2;
      i[T::I_csr__ctrl__op] = o == 14 ? CSROp_NONE : o & 1 ? CSROp_READ_CSR : CSROp_WRITE_CSR;
      i[T::I_csr__adr] = CSRS[o == 14 ? ar % 7 : o >> 1];
      i[T::I_csr__dat_w] = 0xFDB97531u - aw * 0x01010101u; i[T::I_csr__mip_w] = (ar + ee & 1) << 11;
      i[T::I_csr__ctrl__exception] = EX[(e + ee) % 7]; i[T::I_pc__ctrl__action] = PA[(p + ee) % 3]; i[T::I_pc__dat_w] = 0x15555555;
      if (dead(i)) continue;
      N n;
      if (!u.go(*b, i, n) || !readback(u, n, aw + ar)) return;
    }
  }
}
static std::vector<In> letters() {
  std::vector<In> l;
  for (u64 a : {0, 1, 2, 4, 8, 10, 16, 31}) l.push_back(gw(a, 0x600D0000u + a * 0x111)), l.push_back(gr(a));
  l.push_back(gw(0, 0xBAD, true)); l.push_back(gw(1, 0xBEE, true)); l.push_back(gw(0, 0xBAD0));
  for (int a : CSRS) l.push_back(cw(a, 0xFFFFFFFF)), l.push_back(cw(a, 0)), l.push_back(cr(a)), l.push_back(cr(a, true));
  l.push_back(cw(CSR_MSTATUS, 8)); l.push_back(cw(CSR_MSTATUS, 0x80)); l.push_back(cw(CSR_MTVEC, 0xA5A5A5A6)); l.push_back(cw(CSR_MEPC, 0x5A5A5A59));
  for (int e : EX) l.push_back(ec(e));
  for (int p : PA) l.push_back(pcl(0x3FFFFFFF, p));
  In r = none(); r[0] = 1; l.push_back(r);
  { In i = gw(7, 0x77); i[T::I_csr__ctrl__op] = CSROp_READ_CSR; i[T::I_csr__adr] = CSR_MSCRATCH; l.push_back(i); }
  { In i = gw(7, 0x78); i[T::I_gp__adr_r] = 9; i[T::I_gp__ctrl__reg_read] = 1; l.push_back(i); }
  { In i = gr(9); i[T::I_csr__ctrl__op] = CSROp_WRITE_CSR; i[T::I_csr__adr] = CSR_MCAUSE; i[T::I_csr__dat_w] = 0x0BADCAFE; l.push_back(i); }
  { In i = cr(CSR_MSTATUS); i[T::I_csr__ctrl__exception] = ExceptCtl_ENTER_INT; l.push_back(i); }
  { In i = cr(CSR_MSTATUS); i[T::I_csr__ctrl__exception] = ExceptCtl_LEAVE_INT; l.push_back(i); }
  { In i = cw(CSR_MEPC, 0x1234567B); i[T::I_csr__ctrl__exception] = ExceptCtl_ENTER_INT; i[T::I_pc__ctrl__action] = PcAction_LOAD_ALU_O; l.push_back(i); }
  return l;
}
static bool deep(Ex& u, const N& p, const std::vector<In>& l, int d, int from) {
  if (!d) return readback(u, p, from);
  for (auto& i : l) { N n; if (!u.go(p, i, n) || !deep(u, n, l, d - 1, from + 3)) return false; }
  return true;
}
int main(int argc, char** argv) {
  tier = !strcmp(argv[1], "thorough");
  CShared sh;
  std::vector<std::function<void()>> jobs;
  for (int aw = 0; aw < 32; aw++) jobs.push_back([&sh, aw] { words(sh, aw); });
  static const auto L = letters();
  for (size_t k = 0; k < L.size(); k++) jobs.push_back([&sh, k] {   // sequences
    Ex u(sh, "sequences of operations");
    std::vector<N> st;
    N po = u.root(), n;
    if (!u.go(po, L[k], n) || !deep(u, n, L, tier ? 2 : 1, k)) return;
    const N* b = filled(u, st, 0x5A5A5A5A);
    if (b && u.go(*b, L[k], n)) deep(u, n, L, tier ? 3 : 2, k);
  });
  for (int k = 0; k < 32; k++) jobs.push_back([&sh, k] {   // data: every register and CSR
    Ex u(sh, "values");
    std::vector<N> st;
    const N* b = filled(u, st, 0x0F0F0F0F);
    if (!b) return;
    for (u32 v : values(tier ? 3 : 1)) {
      N n;
      if (!u.go(*b, gw(k, v), n) || !readback(u, n, k) || !u.go(*b, gw(k, v, true), n) || !readback(u, n, k)) return;
      if (k < 7 && (!u.go(*b, cw(CSRS[k], v), n) || !readback(u, n, 30))) return;
      if (k >= 7 && k < 10) { N m, z; if (!u.go(*b, pcl(v >> (k - 7), PcAction_LOAD_ALU_O), n) || !u.go(n, pcl(~v, PcAction_INC), m) || !u.go(m, pcl(v, PcAction_HOLD), z) || !readback(u, z)) return; }
    }
  });
  crun(jobs);
  cfinish(sh, argv[2]);
}
