// C33: views of instruction words and CSRs.  views <tier> <out.json>
#include "dut_views.h"
#include "unit.h"
typedef T_views_0 T;
struct MV : T {
  bool loose(int) const { return false; }
  void por() {}
  void next(const u64*) {}
  void expect(const u64* in, u64* v, u64* m) const {
    u32 w = in[T::I_word];
    auto f = [&](int lo, int n) { return w >> lo & (n == 32 ? ~0u : (1u << n) - 1); };
    u32 s = w >> 31 ? ~0u : 0;
    v[T::O_raw] = w; v[T::O_opcode] = f(2, 5); v[T::O_rd] = f(7, 5); v[T::O_funct3] = f(12, 3);
    v[T::O_rs1] = f(15, 5); v[T::O_rs2] = f(20, 5); v[T::O_funct7] = f(25, 7); v[T::O_funct12] = f(20, 12);
    v[T::O_sign] = w >> 31;
    v[T::O_imm_I] = (u32)((int32_t)w >> 20);
    v[T::O_imm_S] = s << 11 | f(25, 6) << 5 | f(7, 5);
    v[T::O_imm_B] = s << 12 | f(7, 1) << 11 | f(25, 6) << 5 | f(8, 4) << 1;
    v[T::O_imm_U] = w & 0xFFFFF000;
    v[T::O_imm_J] = s << 20 | f(12, 8) << 12 | f(20, 1) << 11 | f(21, 10) << 1;
    v[T::O_csr_addr] = f(20, 12); v[T::O_csr_quadrant] = f(28, 2); v[T::O_csr_access] = f(30, 2);
    v[T::O_MStatus_mie] = f(3, 1); v[T::O_MStatus_mpie] = f(7, 1); v[T::O_MStatus_mpp] = f(11, 2);
    v[T::O_MTVec_mode] = f(0, 2); v[T::O_MTVec_base] = f(2, 30);
    v[T::O_MIP_msip] = v[T::O_MIE_msie] = f(3, 1);
    v[T::O_MIP_mtip] = v[T::O_MIE_mtie] = f(7, 1);
    v[T::O_MIP_meip] = v[T::O_MIE_meie] = f(11, 1);
    v[T::O_MCause_cause] = f(0, 31); v[T::O_MCause_interrupt] = f(31, 1);
    for (int k = 0; k < T::NO; k++) m[k] = ~0ull;
  }
};
struct MN {
  bool loose(int) const { return false; }
  void por() {}
  void next(const u64*) {}
  void expect(const u64*, u64* v, u64* m) const { for (int k = 0; k < T_names_0::NO; k++) v[k] = T_names_0::WANT[k], m[k] = ~0ull; }
};
int main(int argc, char** argv) {
  CShared sh;
  std::vector<std::function<void()>> jobs;
  jobs.push_back([&] {
    typedef Unit<T_names_0, MN> U; U u(sh, "every name");
    auto r = u.root(); U::Node n; U::In i;
    if (u.go(r, i, n)) u.leaf(n);
  });
  for (u64 q = 0; q < 64; q++) jobs.push_back([&, q] {
    typedef Unit<T, MV> U; U u(sh, "every word");
    auto r = u.root(); U::Node n; U::In i;
    for (u64 w = q << 26; w < (q + 1) << 26; w++) {
      i[T::I_word] = w;
      if (!u.go(r, i, n)) return;
      u.nodes++;
      if ((w & (w - 1)) == 0 || w % 0x1010101 == 0) u.keep.push_back({T::NAME, u.label, fmt("word %08x", (u32)w), u.rows(n, nullptr)});
    }
  });
  crun(jobs);
  cfinish(sh, argv[2]);
}
