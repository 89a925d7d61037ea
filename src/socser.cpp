// C32: UART of examples/attosoc.py, bare and on either bus.
// socser <tier> <out.json>
#include "dut_socser.h"
#include "unit.h"
static int tier;
enum { NO = 0, YES = 1, MAYBE = 2 };
template <int D> struct Ser {   // what the two lines carry, and what that means
  int tk; u32 td;               // cycles left of the frame being sent, its byte
  int sk; u32 sd; int cur;      // cycle of the incoming frame, byte so far, its bit
  int rt; u32 rd; int rdy; bool bad, ovf, over, dead;
  static constexpr int RT = 2 + D / 2 + 9 * D;   // start bit to byte ready: sampled mid-bit
  void por() { memset(this, 0, sizeof *this); }
  bool tx() const { if (!tk) return true; int b = (10 * D - tk) / D; return b == 0 ? false : b == 9 ? true : td >> (b - 1) & 1; }
  bool idle() const { return !tk; }
  bool got() const { return rdy != NO && rt == 0; }
  // may the incoming line have this value now, bytes being out of `bytes`?
  bool line(bool v, const std::vector<u32>& bytes, bool badstop) const {
    if (sk == 0 || bytes.empty()) return sk == 0 || sk % D == 0 || v == cur ? sk != 9 * D || v || badstop : false;
    if (sk % D) return v == cur;
    int b = sk / D;
    if (b == 9) return v || badstop;
    u32 k = (1u << b) - 1, d = sd | (u32)v << (b - 1);
    for (u32 x : bytes) if ((x & k) == d) return true;
    return false;
  }
  void next(bool v, bool send, u32 data, int ack) {
    bool begins = rt == 0 && !v;
    if (over) { dead = true; return; }
    if (tk) { if (--tk == 0) td = 0; } else if (send) tk = 10 * D, td = data;
    // the line
    if (sk == 0) { if (!v) sk = 1, cur = 0, sd = 0; }
    else {
      if (sk % D == 0) { cur = v; if (sk < 9 * D) sd |= (u32)v << (sk / D - 1); }
      if (++sk == 10 * D) sk = 0;
    }
    // the receiver
    if (rt) { if (++rt == RT) rt = 0, rdy = YES, rd = sd, bad = !cur; }
    else if (begins && bad) over = true;   // after a bad stop bit anything may follow
    else if (begins) {
      if (rdy == NO || ack == YES) rt = 1, rdy = NO, rd = 0;
      else { ovf = rdy == YES && ack == NO; over = true; }
    } else if (ack != NO && rdy != NO) { rdy = ack == YES ? NO : MAYBE; if (rdy == NO) rd = 0, bad = false; }
    if (sk == 0) sd = 0, cur = 1;
  }
  std::string key() const { return std::string((const char*)this, sizeof *this); }
};
template <class T> struct MU {   // the bare UART
  Ser<T::PARAM> s;
  bool loose(int) const { return false; }
  void por() { s.por(); }
  void expect(const u64*, u64* v, u64* m) const {
    v[T::O_tx_o] = s.tx(); v[T::O_tx_ack] = s.idle(); m[T::O_tx_o] = m[T::O_tx_ack] = 1;
    v[T::O_rx_ovf] = s.ovf; m[T::O_rx_ovf] = !s.over || s.ovf;
    if (s.over) return;
    v[T::O_rx_rdy] = s.rdy; m[T::O_rx_rdy] = 1;
    if (s.got()) v[T::O_rx_data] = s.rd, m[T::O_rx_data] = 255, v[T::O_rx_err] = s.bad, m[T::O_rx_err] = 1;
  }
  void next(const u64* in) { if (in[0]) s.por(); else s.next(in[T::I_rx_i], in[T::I_tx_rdy], in[T::I_tx_data], in[T::I_rx_ack] ? YES : NO); }
  std::string key() const { return s.key(); }
};
struct Flags {   // the IRQ register
  bool rx, tx, rp, tp;   // bits; the line's state a cycle ago
  template <class S> void next(const S& before, bool clear) {
    bool r = before.rdy != NO, t = before.idle();
    if (clear) rx = tx = false;
    if (r && !rp) rx = true;
    if (t && !tp) tx = true;
    rp = r; tp = t;
  }
};
template <class T> struct MW {   // on Wishbone
  Ser<T::PARAM> s; Flags f; u32 adr, sel, dat, r0; bool we, busy, rk;
  bool loose(int) const { return false; }
  void por() { memset(this, 0, sizeof *this); }
  bool reads(u32 a) const { return busy && !we && sel && adr == a; }
  void expect(const u64*, u64* v, u64* m) const {
    v[T::O_bus__ack] = busy; m[T::O_bus__ack] = 1;
    if (s.over) return;
    v[T::O_tx] = s.tx(); m[T::O_tx] = 1;
    v[T::O_irq] = f.rx || f.tx; m[T::O_irq] = !(reads(1) && r0);
    v[T::O_bus__dat_r] = r0;
    if (reads(0) && rk) m[T::O_bus__dat_r] = 255;
    if (reads(1)) m[T::O_bus__dat_r] = 3;
  }
  void next(const u64* in) {
    bool open = !busy && in[T::I_bus__cyc] && in[T::I_bus__stb], w = in[T::I_bus__we], se = in[T::I_bus__sel]; u32 a = in[T::I_bus__adr];
    auto before = s;
    // a byte read while ready is taken; one becoming ready meanwhile may be
    bool taking = open && !w && se && a == 0;
    s.next(in[T::I_rx], busy && we && sel && adr == 0, dat, taking ? YES : reads(0) ? MAYBE : NO);
    Flags f0 = f;
    f.next(before, open && !w && se && a == 1);
    if (open) { busy = true; adr = a; sel = se; dat = w ? in[T::I_bus__dat_w] : 0; we = w; r0 = !se || w ? 0 : a == 0 ? (before.got() ? before.rd : 0) : f0.rx | f0.tx << 1; rk = a != 0 || before.got(); }
    else busy = we = rk = false, adr = sel = dat = r0 = 0;
    if (in[0]) por();
  }
  std::string key() const { return std::string((const char*)this, sizeof *this); }
};
template <class T> struct MC {   // on the CSR bus
  Ser<4> s; Flags f; u32 wd, rd; bool w, rk, r2;
  bool loose(int) const { return false; }
  void por() { memset(this, 0, sizeof *this); f.rp = f.tp = true; }
  void expect(const u64*, u64* v, u64* m) const {
    if (s.over) return;
    v[T::O_tx] = s.tx(); v[T::O_irq] = f.rx || f.tx; m[T::O_tx] = m[T::O_irq] = 1;
    if (rk) v[T::O_bus__r_data] = rd, m[T::O_bus__r_data] = 255;
  }
  void next(const u64* in) {
    u32 a = in[T::I_bus__addr]; bool r = in[T::I_bus__r_stb], wn = in[T::I_bus__w_stb] && a == 0; u32 wdn = in[T::I_bus__w_data];
    auto before = s;
    bool send = T::PARAM ? w : wn; u32 sd = T::PARAM ? wd : wdn;
    s.next(in[T::I_rx], send, sd, r && a == 0 ? YES : NO);
    Flags f0 = f;
    f.next(before, r && a == 4);
    rk = r && (a == 4 || (a == 0 && before.got()));
    rd = !rk ? 0 : a == 4 ? f0.rx | f0.tx << 1 : before.rd;
    w = wn; wd = wn ? wdn : 0;
    if (in[0]) por();
  }
  std::string key() const { return std::string((const char*)this, sizeof *this); }
};
template <class S> static void lines(const S& s, const std::vector<u32>& bytes, bool rx, bool badstop, std::vector<int>& out) {
  out.clear();
  if (s.over) { out.push_back(1); return; }
  for (int v = 0; v < 2; v++) if (v || rx) if (s.line(v, bytes, badstop)) out.push_back(v);
}
// mode 0: every byte sent; 1: every byte received; 2: both ways at once
template <class T> static void uart(CShared& sh, int mode) {
  typedef Unit<T, MU<T>> U; typedef typename U::In I;
  const char* L[] = {"UART: every byte sent", "UART: every byte received, acknowledged at any time", "UART: both directions at once"};
  U u(sh, L[mode]);
  std::vector<u32> few = {0x00, 0xFF, 0xA5}, none;
  u64 n = u.reach([&](const typename U::Node& n, std::vector<I>& mv) {
    auto& s = n.m.s;
    if (s.dead) return;
    std::vector<int> ls;
    lines(s, mode == 1 ? none : few, mode != 0, mode == 1, ls);
    for (int l : ls) for (int a = 0; a < (mode == 0 ? 1 : 2); a++) for (int t = 0; t < 2; t++) {
      if (t && mode == 1) continue;
      int nd = t && !s.tk ? (mode == 0 ? 256 : 3) : 1;   // while busy any data is ignored
      for (int d = 0; d < nd; d++) { I i; i[T::I_rx_i] = l; i[T::I_rx_ack] = a; i[T::I_tx_rdy] = t; i[T::I_tx_data] = mode == 0 ? d ^ (s.tk ? 0x69 : 0) : few[d]; mv.push_back(i); }
    }
    I r; r[0] = 1; r[T::I_rx_i] = 1; mv.push_back(r);
  }, 8000000);
  sh.counters["reachable states"] += n;
}
template <class T> static void wb(CShared& sh, int mode) {
  typedef Unit<T, MW<T>> U; typedef typename U::In I;
  const char* L[] = {"UART on Wishbone: every byte sent", "UART on Wishbone: every byte received", "UART on Wishbone: both directions, every access at any time"};
  U u(sh, L[mode]);
  std::vector<u32> few = {0xA5}, none;
  u64 n = u.reach([&](const typename U::Node& n, std::vector<I>& mv) {
    auto& m = n.m;
    if (m.s.dead) return;
    std::vector<int> ls;
    lines(m.s, mode == 1 ? none : few, mode != 0, false, ls);
    for (int l : ls) {
      auto put = [&](int cyc, int stb, u32 a, bool w, u32 s, u32 d) { I i; i[T::I_rx] = l; i[T::I_bus__cyc] = cyc; i[T::I_bus__stb] = stb; i[T::I_bus__adr] = a; i[T::I_bus__we] = w; i[T::I_bus__sel] = s; i[T::I_bus__dat_w] = d; mv.push_back(i); };
      if (m.busy) { put(1, 1, m.adr, m.we, m.sel, m.dat); continue; }
      put(0, 0, 0, 1, 1, 0x33);
      if (mode == 2) put(1, 0, 1, 0, 1, 0), put(0, 1, 0, 0, 1, 0), put(1, 1, 0, 1, 0, 0x44), put(1, 1, 0, 0, 0, 0), put(1, 1, 1, 0, 0, 0), put(1, 1, 1, 1, 1, 0xFF);
      put(1, 1, 0, 0, 1, 0); put(1, 1, 1, 0, 1, 0);
      if (m.s.idle() && mode != 1) for (int d = 0; d < (mode == 0 ? 256 : 1); d++) put(1, 1, 0, 1, 1, mode == 0 ? d : 0x96);
    }
    I r; r[0] = 1; r[T::I_rx] = 1; mv.push_back(r);
  }, 8000000);
  sh.counters["reachable states"] += n;
}
template <class T> static void csr(CShared& sh, int mode) {
  typedef Unit<T, MC<T>> U; typedef typename U::In I;
  const char* L[] = {"UART on the CSR bus: every byte sent", "UART on the CSR bus: every byte received", "UART on the CSR bus: both directions, every access at any time"};
  U u(sh, L[mode]);
  std::vector<u32> few = {0xA5}, none;
  u64 n = u.reach([&](const typename U::Node& n, std::vector<I>& mv) {
    auto& m = n.m;
    if (m.s.dead) return;
    std::vector<int> ls;
    lines(m.s, mode == 1 ? none : few, mode != 0, false, ls);
    for (int l : ls) {
      auto put = [&](u32 a, int r, int w, u32 d) { I i; i[T::I_rx] = l; i[T::I_bus__addr] = a; i[T::I_bus__r_stb] = r; i[T::I_bus__w_stb] = w; i[T::I_bus__w_data] = d; mv.push_back(i); };
      put(0, 0, 0, 0x33); put(0, 1, 0, 0); put(4, 1, 0, 0);
      if (mode == 2) put(1, 1, 0, 0), put(4, 0, 1, 0xFF), put(5, 0, 1, 0);
      if (m.s.idle() && !m.w && mode != 1) for (int d = 0; d < (mode == 0 ? 256 : 1); d++) put(0, 0, 1, mode == 0 ? d : 0x96);
    }
    I r; r[0] = 1; r[T::I_rx] = 1; mv.push_back(r);
  }, 8000000);
  sh.counters["reachable states"] += n;
}
int main(int argc, char** argv) {
  tier = !strcmp(argv[1], "thorough");
  CShared sh;
  std::vector<std::function<void()>> jobs;
  jobs.push_back([&] { wb<T_wbser_4>(sh, 2); });
  jobs.push_back([&] { wb<T_wbser_5>(sh, 2); });
  jobs.push_back([&] { csr<T_csrser_0>(sh, 2); });
  jobs.push_back([&] { csr<T_csrser_1>(sh, 2); });
  for (int k = 0; k < 3; k++) {
    jobs.push_back([&sh, k] { uart<T_uart_4>(sh, k); });
    jobs.push_back([&sh, k] { uart<T_uart_5>(sh, k); });
    jobs.push_back([&sh, k] { uart<T_uart_9>(sh, k); });
    if (k < 2) {
      jobs.push_back([&sh, k] { wb<T_wbser_4>(sh, k); });
      jobs.push_back([&sh, k] { csr<T_csrser_0>(sh, k); });
      jobs.push_back([&sh, k] { csr<T_csrser_1>(sh, k); });
    }
  }
  crun(jobs);
  cfinish(sh, argv[2]);
}
