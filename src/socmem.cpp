// C30: WBMemory of examples/attosoc.py.  socmem <tier> <out.json>
#include "dut_socmem.h"
#include "unit.h"
static int tier;
template <class T> struct MM {   // a memory of bytes behind Wishbone
  static constexpr int W = T::PARAM;
  u32 ref[W]; u32 adr, sel, dat; bool we, busy;
  bool loose(int k) const { return k == T::O_bus__dat_r && !(busy && !we); }
  void por() {
    memset(this, 0, sizeof *this);
    const u32 INIT[] = {0x00FF00FF, 0xFF0000FF, 0x12345678};
    for (int i = 0; i < W && i < 3; i++) ref[i] = INIT[i];
  }
  void expect(const u64*, u64* v, u64* m) const {
    v[T::O_bus__ack] = busy; m[T::O_bus__ack] = 1;
    if (busy && !we) v[T::O_bus__dat_r] = ref[adr], m[T::O_bus__dat_r] = 0xFFFFFFFF;
  }
  void next(const u64* in) {
    if (busy) {
      if (we) for (int b = 0; b < 4; b++) if (sel >> b & 1) { u32 k = 0xFFu << 8 * b; ref[adr] = (ref[adr] & ~k) | (dat & k); }
      busy = false;
    } else if (!in[0] && in[T::I_bus__cyc] && in[T::I_bus__stb]) {
      busy = true; adr = in[T::I_bus__adr]; sel = in[T::I_bus__sel]; dat = in[T::I_bus__dat_w]; we = in[T::I_bus__we];
    }
    if (!busy) adr = sel = dat = 0, we = false;
  }
  std::string key() const { return std::string((const char*)this, sizeof *this); }
};
template <class T> struct Run {
  typedef MM<T> M; typedef Unit<T, M> U; typedef typename U::Node N; typedef typename U::In I;
  static I req(u32 adr, bool we, u32 sel, u32 dat) {
    I i; i[T::I_bus__adr] = adr; i[T::I_bus__cyc] = i[T::I_bus__stb] = 1; i[T::I_bus__we] = we; i[T::I_bus__sel] = sel; i[T::I_bus__dat_w] = dat; return i;
  }
  static void fix(CShared& sh) {
    U u(sh, "every history of accesses, pauses and resets");
    u64 n = u.reach([](const N& n, std::vector<I>& mv) {
      const M& m = n.m;
      if (m.busy) { mv.push_back(req(m.adr, m.we, m.sel, m.dat)); return; }
      for (int k = 0; k < 3; k++) for (int w = 0; w < 2; w++) { I i = req(1, w, 15, 0xFF00FF00); if (!(k & 1)) i[T::I_bus__cyc] = 0; if (!(k & 2)) i[T::I_bus__stb] = 0; mv.push_back(i); }
      I r; r[0] = 1; mv.push_back(r);
      for (u32 a = 0; a < (u32)M::W; a++) for (int sel = 0; sel < 16; sel++) {
        mv.push_back(req(a, false, sel, ~0u));
        for (int d = 0; d < 16; d++) mv.push_back(req(a, true, sel, (d & 1) * 0xFFu | (d >> 1 & 1) * 0xFF00u | (d >> 2 & 1) * 0xFF0000u | (d >> 3) * 0xFF000000u));
      }
    }, 12000000);
    sh.counters[fmt("reachable states, %d words", M::W)] = n;
  }
  // a whole access from p into c[1], then k idle cycles; the last node
  static const N* acc(U& u, const N* p, N* c, const I& r, int k) {
    if (!u.go(*p, r, c[0]) || !u.go(c[0], r, c[1])) return nullptr;
    const N* n = c + 1;
    for (int j = 0; j < k; j++) { if (!u.go(*n, I(), c[2 + j])) return nullptr; n = c + 2 + j; }
    return n;
  }
  static void tree(CShared& sh, int q) {
    U u(sh, "two writes and two reads over the whole memory");
    N r = u.root(); N c[5][4];
    for (u32 a = q; a < (u32)M::W; a += 8) for (u32 b = 0; b < (u32)M::W; b++) for (int k = 0; k < (tier ? 60 : 15); k++) {
      u32 s1 = tier ? k % 15 + 1 : 1 << (k & 3) | (k == 14 ? 15 : 0), s2 = 15 ^ (k * 7 & 15), d = 0x9E3779B9u * (k + 1) ^ a << 16 ^ b;
      const N* n = acc(u, &r, c[0], req(a, true, s1, d), k & 1);
      n = n ? acc(u, n, c[1], req(b, true, s2, ~d), k >> 1 & 1) : n;
      n = n ? acc(u, n, c[2], req(a, false, s2, 0), k >> 2 & 1) : n;
      n = n ? acc(u, n, c[3], req(b, false, s1, 0), 1) : n;
      if (!n) return;
      u.leaf(*n);
    }
    for (u32 a = q; a < (u32)M::W; a += 8) for (int bit = 0; bit < 32; bit++) for (int inv = 0; inv < 2; inv++) for (int s = 0; s < 16; s++) {
      u32 d = inv ? ~(1u << bit) : 1u << bit;
      const N* n = acc(u, &r, c[0], req(a, true, 15, ~d), 0);
      n = n ? acc(u, n, c[1], req(a, true, s, d), 0) : n;
      n = n ? acc(u, n, c[2], req(a, false, 15, 0), 1) : n;
      if (!n) return;
      u.leaf(*n);
    }
  }
};
int main(int argc, char** argv) {
  tier = !strcmp(argv[1], "thorough");
  CShared sh;
  std::vector<std::function<void()>> jobs;
  jobs.push_back([&] { Run<T_wbmem_2>::fix(sh); });
  for (int q = 0; q < 8; q++) {
    jobs.push_back([&sh, q] { Run<T_wbmem_256>::tree(sh, q); });
    jobs.push_back([&sh, q] { Run<T_wbmem_3>::tree(sh, q); });
  }
  crun(jobs);
  cfinish(sh, argv[2]);
}
