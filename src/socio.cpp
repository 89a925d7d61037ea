// C31: LEDs/GPIO and timer of examples/attosoc.py.  socio <tier> <out.json>
#include "dut_socio.h"
#include "unit.h"
static int tier;
struct Bus {   // one Wishbone access: request cycle, then the acknowledged one
  u32 adr, sel, dat; bool we, busy;
  template <class T> void expect(u64* v, u64* m) const { v[T::O_bus__ack] = busy; m[T::O_bus__ack] = 1; }
  template <class T> bool opens(const u64* in) const { return !busy && in[T::I_bus__cyc] && in[T::I_bus__stb]; }
  template <class T> void next(const u64* in) {
    if (opens<T>(in) && !in[0]) busy = true, adr = in[T::I_bus__adr], sel = in[T::I_bus__sel], dat = in[T::I_bus__dat_w], we = in[T::I_bus__we];
    else busy = we = false, adr = sel = dat = 0;
  }
  bool reads(u32 a) const { return busy && !we && sel && adr == a; }
  bool writes(u32 a) const { return busy && we && sel && adr == a; }
  template <class T, class I> static I req(u32 adr, bool we, u32 sel, u32 dat) {
    I i; i[T::I_bus__adr] = adr; i[T::I_bus__cyc] = i[T::I_bus__stb] = 1; i[T::I_bus__we] = we; i[T::I_bus__sel] = sel; i[T::I_bus__dat_w] = dat; return i;
  }
  template <class T, class I> static void idle(std::vector<I>& mv, u32 adr) {
    for (int k = 0; k < 3; k++) for (int w = 0; w < 2; w++) { I i = req<T, I>(adr, w, 1, 0xC3); if (!(k & 1)) i[T::I_bus__cyc] = 0; if (!(k & 2)) i[T::I_bus__stb] = 0; mv.push_back(i); }
    I r; r[0] = 1; mv.push_back(r);
  }
};
#define PINS(P, S) {T::P##0##S, T::P##1##S, T::P##2##S, T::P##3##S, T::P##4##S, T::P##5##S, T::P##6##S, T::P##7##S}
template <class T> static u32 pins(const u64* in) { static const int P[] = PINS(I_gpio__, __i); u32 v = 0; for (int k = 0; k < 8; k++) v |= (u32)in[P[k]] << k; return v; }
template <class T, class I> static void setpins(I& i, u32 v) { static const int P[] = PINS(I_gpio__, __i); for (int k = 0; k < 8; k++) i[P[k]] = v >> k & 1; }
template <class T> static void outputs(u32 leds, u32 o, u32 oe, int skip, u64* v, u64* m) {
  static const int O[] = PINS(O_gpio__, __o), E[] = PINS(O_gpio__, __oe);
  v[T::O_leds] = leds; m[T::O_leds] = skip == 0 ? 0 : 255;
  for (int k = 0; k < 8; k++) { v[O[k]] = o >> k & 1; m[O[k]] = skip != 1; v[E[k]] = oe >> k & 1; m[E[k]] = skip != 2; }
}
static const u32 VAL[] = {0, 0x5A, 0xA5, 0xFF};
struct MLeds {
  typedef T_wbleds_0 T;
  u32 leds, o, oe, in0; Bus b;
  bool loose(int) const { return false; }
  void por() { memset(this, 0, sizeof *this); }
  void expect(const u64* in, u64* v, u64* m) const {
    b.expect<T>(v, m);
    outputs<T>(leds, o, oe, b.busy && b.we && b.sel ? (int)b.adr : -1, v, m);
    if (b.reads(1)) v[T::O_bus__dat_r] = in0, m[T::O_bus__dat_r] = 255 & ~(in0 ^ pins<T>(in));   // pins that moved meanwhile: either
  }
  void next(const u64* in) {
    if (b.writes(0)) leds = b.dat;
    if (b.writes(1)) o = b.dat;
    if (b.writes(2)) oe = b.dat;
    b.next<T>(in);
    in0 = b.busy ? pins<T>(in) : 0;
    if (in[0]) por();
  }
  std::string key() const { return std::string((const char*)this, sizeof *this); }
};
template <class T> struct MCsr {   // the same registers on the CSR bus
  u32 leds, o, oe, rd, wa, wd; bool rk, w;
  bool loose(int) const { return false; }
  void por() { memset(this, 0, sizeof *this); }
  void expect(const u64*, u64* v, u64* m) const {
    outputs<T>(leds, o, oe, -1, v, m);
    if (rk) v[T::O_bus__r_data] = rd, m[T::O_bus__r_data] = 255;
  }
  void set(u32 a, u32 d) { if (a == 0) leds = d; if (a == 4) o = d; if (a == 8) oe = d; }
  void next(const u64* in) {
    bool st = in[T::I_bus__w_stb]; u32 a = in[T::I_bus__addr], d = in[T::I_bus__w_data];
    if (T::PARAM) { if (w) set(wa, wd); w = st; wa = st ? a : 0; wd = st ? d : 0; }
    else if (st) set(a, d);
    rk = in[T::I_bus__r_stb] && a == 4; rd = rk ? pins<T>(in) : 0;
    if (in[0]) por();
  }
  std::string key() const { return std::string((const char*)this, sizeof *this); }
};
struct MTim {
  typedef T_wbtim_0 T;
  u32 n; bool was, late; Bus b;   // was: IRQ when the access began; late: it rose in the read just acknowledged
  bool loose(int) const { return false; }
  void por() { memset(this, 0, sizeof *this); }
  void expect(const u64*, u64* v, u64* m) const {
    b.expect<T>(v, m);
    v[T::O_irq] = n >> 14; m[T::O_irq] = !(b.reads(0) && was);
    if (b.reads(0)) v[T::O_bus__dat_r] = was, m[T::O_bus__dat_r] = 1;
  }
  void next(const u64* in) {
    bool q = n >> 14, open = b.opens<T>(in);
    n = (n + 1) & 0x7FFF;
    late = b.reads(0) && !was && q;
    b.next<T>(in);
    was = open && q;
    if (was && b.reads(0)) n &= 0x3FFF;
    if (in[0]) por();
  }
  // known finding: such an IRQ is cleared by the read that did not report it
  const char* excuse(const u64* out) {
    if (!late || out[T::O_irq]) return nullptr;
    n &= 0x3FFF; late = false;
    return "wbtimer-irq-rising-in-read-acknowledge";
  }
  std::string key() const { return std::string((const char*)this, sizeof *this); }
};
template <class T> struct MCt {
  u32 n; bool rk, rd;
  bool loose(int) const { return false; }
  void por() { memset(this, 0, sizeof *this); }
  void expect(const u64*, u64* v, u64* m) const {
    v[T::O_irq] = n >> 14; m[T::O_irq] = 1;
    if (rk) v[T::O_bus__r_data] = rd, m[T::O_bus__r_data] = 255;
  }
  void next(const u64* in) {
    bool q = n >> 14;
    n = (n + 1) & 0x7FFF;
    rk = in[T::I_bus__r_stb] && in[T::I_bus__addr] == 0; rd = rk && q;
    if (rd) n &= 0x3FFF;
    if (in[0]) por();
  }
  std::string key() const { return std::string((const char*)this, sizeof *this); }
};
// every history over a few values; else every value of register all-1, or
// (all = 4) every value of the pins
static void leds(CShared& sh, int all) {
  typedef T_wbleds_0 T; typedef Unit<T, MLeds> U; typedef U::In I;
  U u(sh, all ? "LEDs: every value of one register or the pins" : "LEDs: every history of accesses, pins, pauses and resets");
  u64 n = u.reach([all](const U::Node& n, std::vector<I>& mv) {
    std::vector<u32> ps, ds;
    if (all) ps = {0x3C}; else ps = {0, 0x5A, 0xFF};
    if (all == 4) { ps.clear(); for (u32 d = 0; d < 256; d++) ps.push_back(d); }
    for (u32 p : ps) {
      size_t k = mv.size();
      if (n.m.b.busy) mv.push_back(Bus::req<T, I>(n.m.b.adr, n.m.b.we, n.m.b.sel, n.m.b.dat));
      else if (all == 4) mv.push_back(Bus::req<T, I>(1, false, 1, 0));
      else {
        Bus::idle<T, I>(mv, n.m.b.adr);
        for (u32 a = 0; a < 3; a++) for (int s = 0; s < 2; s++) {
          if (all && (int)a != all - 1) continue;
          mv.push_back(Bus::req<T, I>(a, false, s, 0xC3));
          if (!all) for (u32 d : VAL) mv.push_back(Bus::req<T, I>(a, true, s, d));
          else for (u32 d = 0; d < 256; d++) mv.push_back(Bus::req<T, I>(a, true, s, d));
        }
      }
      for (; k < mv.size(); k++) setpins<T>(mv[k], p);
    }
  }, 3000000);
  sh.counters["reachable states"] += n;
}
template <class T> static void csrleds(CShared& sh, int all) {
  typedef Unit<T, MCsr<T>> U; typedef typename U::In I;
  U u(sh, all ? "LEDs on the CSR bus: every value of one register or the pins" : "LEDs on the CSR bus: every history");
  u64 n = u.reach([all](const typename U::Node& n, std::vector<I>& mv) {
    auto put = [&](u32 p, u32 a, int k, u32 d) { I i; setpins<T>(i, p); i[T::I_bus__addr] = a; i[T::I_bus__r_stb] = k == 1; i[T::I_bus__w_stb] = k == 2; i[T::I_bus__w_data] = d; mv.push_back(i); };
    I r; r[0] = 1; mv.push_back(r);
    if (all == 4) { for (u32 p = 0; p < 256; p++) put(p, 4, 1, 0); return; }
    if (all) { put(0, 0, 0, 0x69); if (!n.m.w) for (u32 d = 0; d < 256; d++) put(0, 4 * (all - 1), 2, d); return; }
    for (u32 p : {0u, 0x5Au, 0xFFu}) for (u32 a : {0u, 4u, 8u, 1u, 12u}) { for (int k = 0; k < 2; k++) put(p, a, k, 0x69); for (u32 d : {0u, 0x5Au, 0xFFu}) put(p, a, 2, d); }
  }, 3000000);
  sh.counters["reachable states"] += n;
}
// at >= 0: accesses only at that count (a change that makes the states of the
// model and the design drift apart would otherwise end at the cap)
static void timer(CShared& sh, int at) {
  typedef T_wbtim_0 T; typedef Unit<T, MTim> U; typedef U::In I;
  U u(sh, at < 0 ? "timer: every history of accesses, pauses and resets" : "timer: accesses at one count, or none");
  u.maxrows = 3000;
  u64 n = u.reach([at](const U::Node& n, std::vector<I>& mv) {
    if (!n.m.b.busy && at >= 0 && n.m.n != (u32)at) { mv.push_back(I()); return; }
    if (n.m.b.busy) { mv.push_back(Bus::req<T, I>(n.m.b.adr, n.m.b.we, n.m.b.sel, n.m.b.dat)); return; }
    Bus::idle<T, I>(mv, 0);
    for (int k = 0; k < 4; k++) for (u32 d : {0u, 0xFFu}) mv.push_back(Bus::req<T, I>(0, k & 1, k >> 1, d));
  }, 3000000);
  sh.counters["reachable states"] += n;
}
template <class T> static void csrtimer(CShared& sh, int at) {
  typedef Unit<T, MCt<T>> U; typedef typename U::In I;
  U u(sh, at < 0 ? "timer on the CSR bus: every history" : "timer on the CSR bus: accesses at one count, or none");
  u.maxrows = 3000;
  u64 n = u.reach([at](const typename U::Node& n, std::vector<I>& mv) {
    if (at >= 0 && n.m.n != (u32)at) { mv.push_back(I()); return; }
    I r; r[0] = 1; mv.push_back(r);
    for (u32 a : {0u, 1u, 4u}) for (int k = 0; k < 3; k++) { I i; i[T::I_bus__addr] = a; i[T::I_bus__r_stb] = k == 1; i[T::I_bus__w_stb] = k == 2; i[T::I_bus__w_data] = 0xFF; mv.push_back(i); }
  }, 3000000);
  sh.counters["reachable states"] += n;
}
int main(int argc, char** argv) {
  tier = !strcmp(argv[1], "thorough");
  CShared sh;
  std::vector<std::function<void()>> jobs;
  for (int at : {-1, 0x4000, 0x4001, 0x5432, 0x7FFE, 0x7FFF, 0, 1, 0x2345, 0x3FFD, 0x3FFE, 0x3FFF}) {
    jobs.push_back([&sh, at] { timer(sh, at); });
    jobs.push_back([&sh, at] { csrtimer<T_csrtim_0>(sh, at); });
    jobs.push_back([&sh, at] { csrtimer<T_csrtim_1>(sh, at); });
  }
  for (int k = 0; k < 5; k++) { jobs.push_back([&sh, k] { leds(sh, k); }); jobs.push_back([&sh, k] { csrleds<T_csrleds_0>(sh, k); }); jobs.push_back([&sh, k] { csrleds<T_csrleds_1>(sh, k); }); }
  crun(jobs);
  cfinish(sh, argv[2]);
}
