// C19: the Python design and the Verilog written for it, on the same inputs,
// compared on every output in every cycle.  -DVHDR="dut_vN.h"
// eq19 <tier> <plain|formal> <out.json>
#include VHDR
#include "enc.h"
#include "fix.h"
#include "eqtree.h"
int main(int argc, char** argv) {
  bool th = !strcmp(argv[1], "thorough"), formal = !strcmp(argv[2], "formal");
  Shared* sh = new Shared;
  forms(*sh, th, 0);
  words(*sh, th);
  operands(*sh, th);
  resets(*sh, th);
  histories(*sh, th, 0);
  if (!formal) {   // (RVFI counts retirements: no fixpoint)
    Env e;
    e.irq = e.wait = e.junk = true;
    e.cap = th ? 3000000 : 900000;
    fixall(*sh, e, "interrupt line, acknowledges and idle data");
    e.wild = true;
    e.cap = th ? 2000000 : 250000;
    fixall(*sh, e, "interrupt line, acknowledges (also unasked ones) and idle data");
    e.wild = false;
    e.rst = e.calm = true;
    e.cap = th ? 3000000 : 800000;
    fixall(*sh, e, "reset, interrupt line, acknowledges and idle data");
  }
  finish(*sh, argv[3]);
}
