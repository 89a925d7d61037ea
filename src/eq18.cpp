// C18: ResetInserter(EnableInserter(Top())) against Top(): a uses the inserted
// reset, b the domain reset, c is the plain core clocked only in enabled
// cycles.  eq18 <tier> <out.json>
#include "dut_en.h"
#include "dut_top.h"
#include "enc.h"
#include "fix.h"
struct P : T_en {
  struct State { d_en::State a, b; d_top::State c; u8 dead, frozen, sel, cyc, stb, we, pad[2]; u32 adr, dat; };
  struct Out : d_en::Out { const char* why; };
  static void por(State& s) { memset((void*)&s, 0, sizeof s); d_en::por(s.a); d_en::por(s.b); d_top::por(s.c); }
  static const char* differs(const Out& o) { return o.why; }
  template <class X, class Y> static bool same(const X& x, const Y& y) { return x.bus__cyc == y.bus__cyc && x.bus__stb == y.bus__stb && x.bus__we == y.bus__we && x.bus__adr == y.bus__adr && x.bus__sel == y.bus__sel && x.bus__dat_w == y.bus__dat_w; }
  template <bool C> static void step(State& s, const d_en::In& i, Out& o) {
    d_en::In ib = i;
    ib.rst = i.rsti; ib.rsti = 0;
    d_en::Out ob{};
    d_top::In ic{};
    d_top::Out oc{};
    ic.irq = i.irq; ic.bus__ack = i.bus__ack; ic.bus__dat_r = i.bus__dat_r; ic.rst = i.rsti;
    T_en::step<C>(s.a, i, o);
    T_en::step<C>(s.b, ib, ob);
    o.why = nullptr;
    if (!same(o, ob)) o.why = "an inserted reset and a domain reset lead to different bus outputs";
    if (!s.dead) {
      if (i.en) d_top::step<C>(s.c, ic, oc); else d_top::step<false>(s.c, ic, oc);
      if (!same(o, oc)) o.why = i.en ? "bus outputs differ from a core that never saw the disabled cycles" : "bus outputs changed during a freeze";
    }
    if (s.frozen && (o.bus__cyc != s.cyc || o.bus__stb != s.stb || o.bus__we != s.we || o.bus__adr != s.adr || o.bus__sel != s.sel || o.bus__dat_w != s.dat)) o.why = "bus outputs changed during a freeze";
    if (C) {
      if (!i.en && !i.rsti) { s.frozen = 1; s.cyc = o.bus__cyc; s.stb = o.bus__stb; s.we = o.bus__we; s.adr = o.bus__adr; s.sel = o.bus__sel; s.dat = o.bus__dat_w; }
      else { s.frozen = s.cyc = s.stb = s.we = s.sel = 0; s.adr = s.dat = 0; }
      // a reset in a disabled cycle has no counterpart on the plain core
      if (!i.en && i.rsti) { s.dead = 1; memset((void*)&s.c, 0, sizeof s.c); }
    }
  }
};
#include "eqtree.h"
int main(int argc, char** argv) {
  bool th = !strcmp(argv[1], "thorough");
  Shared* sh = new Shared;
  forms(*sh, th, 1);
  operands(*sh, th);
  resets(*sh, th);
  histories(*sh, th, 1);
  Env e;
  e.irq = e.wait = e.junk = e.dis = true;
  e.cap = th ? 3000000 : 900000;
  fixall(*sh, e, "interrupt line, clock enable, acknowledges and idle data");
  e.rst = true;
  e.calm = !th;
  e.cap = th ? 4000000 : 1500000;
  fixall(*sh, e, "reset, interrupt line, clock enable, acknowledges and idle data");
  finish(*sh, argv[2]);
}
