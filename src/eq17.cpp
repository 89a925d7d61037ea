// C17: Top(), Top(formal=True) and FormalTop() on the same inputs, compared in
// every cycle.  eq17 <tier> <out.json>
#include "dut_pair.h"
#include "enc.h"
#include "fix.h"
struct P : T_pair {
  static const char* differs(const Out& o) {
    if (o.f_cyc != o.bus__cyc || o.f_stb != o.bus__stb || o.f_we != o.bus__we || o.f_adr != o.bus__adr || o.f_sel != o.bus__sel || o.f_dat_w != o.bus__dat_w)
      return "bus outputs of Top(formal=True) differ from Top()";
    if (o.h_cyc != o.bus__cyc || o.h_stb != o.bus__stb || o.h_we != o.bus__we || o.h_adr != o.bus__adr || o.h_sel != o.bus__sel || o.h_dat_w != o.bus__dat_w)
      return "bus outputs of FormalTop() differ from Top()";
    return nullptr;
  }
};
#include "eqtree.h"
int main(int argc, char** argv) {
  bool th = !strcmp(argv[1], "thorough");
  Shared* sh = new Shared;
  forms(*sh, th, 0);
  words(*sh, th);
  operands(*sh, th);
  resets(*sh, th);
  histories(*sh, th, 0);
  Env e;
  e.irq = e.wait = e.junk = true;
  e.cap = th ? 3000000 : 900000;
  fixall(*sh, e, "interrupt line, acknowledges and idle data");
  e.wild = true;
  e.cap = th ? 2000000 : 250000;
  fixall(*sh, e, "interrupt line, acknowledges (also unasked ones) and idle data");
  e.wild = false;
  e.rst = true;
  e.calm = !th;
  e.cap = th ? 4000000 : 1500000;
  fixall(*sh, e, "reset, interrupt line, acknowledges and idle data");
  finish(*sh, argv[2]);
}
