// C28: operand latches and alignment units.  align <tier> <out.json>
#include "dut_align.h"
#include "unit.h"
static int tier;
static u32 lanes(u32 w, u32 sel, u32 ext, u32 adr) {
  u32 v = sel == MemSel_WORD ? w : sel == MemSel_HWORD ? w >> (adr & 2 ? 16 : 0) & 0xFFFF : w >> 8 * (adr & 3) & 0xFF;
  if (ext == MemExtend_SIGN && sel != MemSel_WORD) v = sx(v, sel == MemSel_HWORD ? 16 : 8);
  return v;
}
// misaligned accesses trap: what the aligners do with them is nobody's business
static bool mis(u32 sel, u32 adr) { return sel == MemSel_HWORD ? adr & 1 : sel == MemSel_WORD ? adr & 3 : false; }
struct Plain { bool loose(int) const { return false; } void por() {} void next(const u64*) {} };
struct MA {   // ASrcMux
  typedef T_amux_0 T; u32 d;
  bool loose(int) const { return false; }
  void por() { d = 0; }
  void expect(const u64*, u64* v, u64* m) const { v[T::O_data] = d; m[T::O_data] = 0xFFFFFFFF; }
  void next(const u64* in) {
    if (in[T::I_latch]) switch (in[T::I_sel]) {
      case ASrc_GP: d = in[T::I_gp]; break;
      case ASrc_IMM: d = in[T::I_imm]; break;
      case ASrc_ZERO: d = 0; break;
      case ASrc_ALU_O: d = in[T::I_alu]; break;
      case ASrc_FOUR: d = 4; break;
      case ASrc_NEG_ONE: d = ~0u; break;
      case ASrc_THIRTY_ONE: d = 31; break;
    }
    if (in[0]) d = 0;
  }
};
struct MB {   // BSrcMux
  typedef T_bmux_0 T; u32 d; bool k;
  bool loose(int) const { return false; }
  void por() { d = 0; k = true; }
  void expect(const u64*, u64* v, u64* m) const { v[T::O_data] = d; m[T::O_data] = k ? 0xFFFFFFFF : 0; }
  void next(const u64* in) {
    if (in[T::I_latch]) {
      k = true;
      switch (in[T::I_sel]) {
        case BSrc_GP: d = in[T::I_gp]; break;
        case BSrc_PC: d = in[T::I_pc] << 2; break;
        case BSrc_IMM: d = in[T::I_imm]; break;
        case BSrc_ONE: d = 1; break;
        case BSrc_DAT_R:
          k = in[T::I_mem_sel] != MemSel_AUTO && !mis(in[T::I_mem_sel], in[T::I_data_adr]);
          d = lanes(in[T::I_dat_r], in[T::I_mem_sel], in[T::I_mem_extend], in[T::I_data_adr]); break;
        case BSrc_CSR_IMM: d = in[T::I_csr_imm]; break;
        case BSrc_CSR: d = in[T::I_csr]; break;
        case BSrc_MCAUSE_LATCH: d = in[T::I_mcause]; break;
      }
    }
    if (in[0]) d = 0, k = true;
  }
};
struct MAdr : Plain {
  typedef T_adra_0 T;
  void expect(const u64* in, u64* v, u64* m) const {
    if (!in[T::I_mem_req]) return;
    u32 a = in[T::I_latched_adr], s = in[T::I_mem_sel];
    m[T::O_wb_adr] = 0x3FFFFFFF; m[T::O_wb_sel] = 15;
    if (in[T::I_insn_fetch]) { v[T::O_wb_adr] = in[T::I_pc]; v[T::O_wb_sel] = 15; return; }
    v[T::O_wb_adr] = a >> 2;
    v[T::O_wb_sel] = s == MemSel_WORD ? 15 : s == MemSel_HWORD ? (a & 2 ? 12 : 3) : 1 << (a & 3);
    if (s == MemSel_AUTO || mis(s, a)) m[T::O_wb_sel] = 0;
    if (mis(s, a)) m[T::O_wb_adr] = 0;
  }
};
struct MRd : Plain {
  typedef T_rda_0 T;
  void expect(const u64* in, u64* v, u64* m) const {
    v[T::O_data] = lanes(in[T::I_wb_dat_r], in[T::I_mem_sel], in[T::I_mem_extend], in[T::I_latched_adr]);
    m[T::O_data] = in[T::I_mem_sel] == MemSel_AUTO || mis(in[T::I_mem_sel], in[T::I_latched_adr]) ? 0 : 0xFFFFFFFF;
  }
};
struct MWr : Plain {
  typedef T_wda_0 T;
  void expect(const u64* in, u64* v, u64* m) const {
    u32 a = in[T::I_latched_adr], s = in[T::I_mem_sel], d = in[T::I_data];
    int sh = s == MemSel_BYTE ? 8 * (a & 3) : s == MemSel_HWORD ? (a & 2) * 8 : 0;
    v[T::O_wb_dat_w] = d << sh;
    m[T::O_wb_dat_w] = s == MemSel_AUTO || mis(s, a) ? 0 : s == MemSel_WORD ? 0xFFFFFFFF : (s == MemSel_HWORD ? 0xFFFFu : 0xFFu) << sh;
  }
};
#ifdef HAVE_dsrc_0
struct MD : Plain {   // DataPathSrcMux
  typedef T_dsrc_0 T;
  void expect(const u64* in, u64* v, u64* m) const {
    bool z = in[T::I_reg_w_sel] == RegWSel_ZERO;
    v[T::O_reg_r_adr] = in[T::I_reg_r_sel] == RegRSel_INSN_RS2 ? in[T::I_src_b] : in[T::I_insn_fetch] ? in[T::I_src_a_unreg] : in[T::I_src_a];
    v[T::O_reg_w_adr] = z ? 0 : in[T::I_dst];
    v[T::O_allow_zero_wr] = z;
    v[T::O_csr_adr] = in[T::I_csr_sel] == CSRSel_TRG_CSR ? in[T::I_csr_target] : in[T::I_csr_encoding];
    for (int k = 0; k < T::NO; k++) m[k] = ~0ull;
  }
};
#endif
static const int SEL[] = {MemSel_BYTE, MemSel_HWORD, MemSel_WORD};
template <class M> struct G {   // every listed combination from a node
  typedef typename M::T T;
  typedef Unit<T, M> X; typedef typename X::Node N; typedef typename X::In I;
};
static std::vector<u32> adrs() { std::vector<u32> v; for (int i = 0; i < 4; i++) { for (u32 x : {0u, 0xFFFFFFFCu, 0x55555554u, 0xAAAAAAA8u}) v.push_back(x + i); for (int b = 2; b < 32; b++) v.push_back(1u << b | i), v.push_back(~(1u << b) & ~3u | i); } return v; }
static void adr(CShared& sh) {
  typedef G<MAdr> g; typedef g::T T;
  g::X u(sh, "address alignment: sizes x addresses x pc x fetch x request");
  auto r = u.root(); g::N n;
  for (u32 a : adrs()) for (u32 p : adrs()) for (int k = 0; k < 16; k++) {
    g::I i; i[T::I_latched_adr] = a; i[T::I_pc] = p & 0x3FFFFFFF; i[T::I_mem_sel] = k & 3; i[T::I_insn_fetch] = k >> 2 & 1; i[T::I_mem_req] = k >> 3;
    if (!u.go(r, i, n)) return;
    u.leaf(n);
  }
}
static void rd(CShared& sh, int q) {
  typedef G<MRd> g; typedef g::T T;
  g::X u(sh, "read alignment: every halfword on either lane x sizes x extension x addresses");
  auto r = u.root(); g::N n;
  for (u32 h = q * 8192; h < q * 8192 + 8192u; h++) for (u32 w : {h, h << 16, h | 0xFFFF0000u, h << 16 | 0xFFFF, h * 0x10001u}) for (int a = 0; a < 4; a++) for (int k = 0; k < 6; k++) {
    g::I i; i[T::I_wb_dat_r] = w; i[T::I_latched_adr] = a | (h & 1 ? 0xFFFFFFFC : 0); i[T::I_mem_sel] = SEL[k % 3]; i[T::I_mem_extend] = k / 3;
    if (!u.go(r, i, n)) return;
    u.leaf(n);
  }
  for (u32 a : adrs()) for (u32 v : values(tier ? 2 : 0)) for (int k = 0; k < 6; k++) {
    g::I i; i[T::I_wb_dat_r] = v; i[T::I_latched_adr] = a; i[T::I_mem_sel] = SEL[k % 3]; i[T::I_mem_extend] = k / 3;
    if (q == 0 && !u.go(r, i, n)) return;
    if (q == 0) u.leaf(n);
  }
}
static void wr(CShared& sh, int q) {
  typedef G<MWr> g; typedef g::T T;
  g::X u(sh, "write alignment: every low halfword x sizes x addresses");
  auto r = u.root(); g::N n;
  for (u32 h = q * 8192; h < q * 8192 + 8192u; h++) for (u32 w : {h, h | 0xFFFF0000u, h << 16, h * 0x10001u}) for (int a = 0; a < 4; a++) for (int k = 0; k < 3; k++) {
    g::I i; i[T::I_data] = w; i[T::I_latched_adr] = a | (h & 1 ? 0xFFFFFFFC : 0); i[T::I_mem_sel] = SEL[k];
    if (!u.go(r, i, n)) return;
    u.leaf(n);
  }
  for (u32 a : adrs()) for (u32 v : values(tier ? 2 : 0)) for (int k = 0; k < 3; k++) {
    g::I i; i[T::I_data] = v; i[T::I_latched_adr] = a; i[T::I_mem_sel] = SEL[k];
    if (q == 0 && !u.go(r, i, n)) return;
    if (q == 0) u.leaf(n);
  }
}
#ifdef HAVE_dsrc_0
static void dsrc(CShared& sh) {
  typedef G<MD> g; typedef g::T T;
  g::X u(sh, "address selection: selections x pairs of register and CSR numbers");
  auto r = u.root(); g::N n;
  const int R[] = {T::I_src_a_unreg, T::I_src_a, T::I_src_b, T::I_dst};
  for (int k = 0; k < 16; k++) for (int w = 0; w < 4; w++) for (int a = 0; a < 32; a++) for (int b = 0; b < 32; b++) {
    g::I i; i[T::I_reg_r_sel] = k & 1; i[T::I_reg_w_sel] = k >> 1 & 1; i[T::I_csr_sel] = k >> 2 & 1; i[T::I_insn_fetch] = k >> 3;
    for (int q = 0; q < 4; q++) i[R[q]] = q == w ? a : b;
    i[T::I_csr_target] = a & 15; i[T::I_csr_encoding] = b & 15;
    if (!u.go(r, i, n)) return;
    u.leaf(n);
  }
}
#endif
static void amux(CShared& sh) {
  typedef G<MA> g; typedef g::T T;
  g::X u(sh, "ALU input A: selections x values after every selection");
  auto mk = [](int l, int s, u32 v, int w) { g::I i; i[T::I_latch] = l; i[T::I_sel] = s; i[T::I_gp] = w == 0 ? v : ~v; i[T::I_imm] = w == 1 ? v : ~v; i[T::I_alu] = w == 2 ? v : ~v; return i; };
  auto r = u.root(); g::N a, b, c, d;
  g::I z; g::I rst; rst[0] = 1;
  if (!u.go(r, mk(1, ASrc_GP, 0x12345678, 0), a) || !u.go(a, rst, b) || !u.go(b, z, c)) return;
  for (int s0 = 0; s0 < 7; s0++) for (int s = 0; s < 7; s++) for (int w = 0; w < 3; w++) for (u32 v : values(tier ? 3 : 1))
    for (int l = 0; l < 2; l++) if (!u.go(r, mk(1, s0, 0x89ABCDEF, w), a) || !u.go(a, mk(l, s, v, w), b) || !u.go(b, mk(0, s0, v ^ 0x33333333, w), c) || !u.go(c, z, d)) return; else u.leaf(d);
}
static void bmux(CShared& sh, int s) {
  typedef G<MB> g; typedef g::T T;
  g::X u(sh, "ALU input B: selections x values after every selection");
  auto mk = [](int l, int s, u32 v, int w) {
    g::I i; i[T::I_latch] = l; i[T::I_sel] = s;
    const int S[] = {T::I_gp, T::I_imm, T::I_pc, T::I_dat_r, T::I_csr_imm, T::I_csr, T::I_mcause};
    for (int k = 0; k < 7; k++) i[S[k]] = (w == k ? v : ~v) & (S[k] == T::I_pc ? 0x3FFFFFFF : S[k] == T::I_csr_imm ? 31 : ~0u);
    i[T::I_mem_sel] = MemSel_WORD;
    return i;
  };
  auto r = u.root(); g::N a, b, c, d;
  g::I z, rst; rst[0] = 1;
  if (!u.go(r, mk(1, BSrc_GP, 0x12345678, 0), a) || !u.go(a, rst, b) || !u.go(b, z, c)) return;
  for (int s0 = 0; s0 < 8; s0++) for (int w = 0; w < 7; w++) for (u32 v : values(tier ? 3 : 1))
    for (int l = 0; l < 2; l++) if (!u.go(r, mk(1, s0, 0x89ABCDEF, w), a) || !u.go(a, mk(l, s, v, w), b) || !u.go(b, mk(0, s0, v ^ 0x33333333, w), c) || !u.go(c, z, d)) return; else u.leaf(d);
  if (s != BSrc_DAT_R) return;
  for (u32 h = 0; h < 65536; h++) for (int k = 0; k < 24; k++) for (u32 x : {h, h << 16, h * 0x10001u}) {
    g::I i = mk(1, s, x, 3); i[T::I_mem_sel] = SEL[k % 3]; i[T::I_mem_extend] = k / 3 & 1; i[T::I_data_adr] = k / 6 | (h & 4 ? ~3u : 0);
    if (!u.go(r, i, a) || !u.go(a, z, b)) return;
    u.leaf(b);
  }
}
int main(int argc, char** argv) {
  tier = !strcmp(argv[1], "thorough");
  CShared sh;
  std::vector<std::function<void()>> jobs;
  jobs.push_back([&] { adr(sh); });
  jobs.push_back([&] { amux(sh); });
#ifdef HAVE_dsrc_0
  jobs.push_back([&] { dsrc(sh); });
#endif
  for (int k = 0; k < 8; k++) { jobs.push_back([&sh, k] { rd(sh, k); }); jobs.push_back([&sh, k] { wr(sh, k); }); jobs.push_back([&sh, k] { bmux(sh, k); }); }
  crun(jobs);
  cfinish(sh, argv[2]);
}
