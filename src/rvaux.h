#pragma once
#include "core.h"
// what the last retired instruction did, to be matched with its rvfi report
struct RvAux {
  bool have;       // an instruction awaits its report
  bool seen;       // its report has been seen
  bool took;       // it was replaced by an interrupt
  bool after_trap; // the instruction before it trapped (or was interrupted)
  bool prev_trap;
  u32 known;       // registers whose value is architecturally known
  u32 cmem, cknown; // CSRs known now / before the instruction (slots of rv.cpp)
  u64 order;
  Step s; Eff e; Iss pre, post;
};
