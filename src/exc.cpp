// C29: ExceptionRouter, every input in every reachable state.
// exc <tier> <out.json>
#include "dut_exc.h"
#include "unit.h"
#include <deque>
typedef T_exc_0 T;
struct Mod {
  u32 c; bool k;
  bool loose(int) const { return false; }
  void por() { c = 0; k = false; }
  // is what is asked about happening, and what is its mcause
  static bool what(const u64* in, u32* c) {
    u32 lo = in[T::I_src__alu_lo], sz = in[T::I_src__ctrl__mem_sel], d = in[T::I_src__decode];
    bool mis = (sz == MemSel_HWORD && lo & 1) || (sz == MemSel_WORD && lo);
    switch (in[T::I_src__ctrl__except_ctl]) {
      case ExceptCtl_LATCH_DECODER:
        if (in[T::I_src__csr__mstatus] >> 3 & in[T::I_src__csr__mip] >> 11 & in[T::I_src__csr__mie] >> 11 & 1) { *c = 0x8000000B; return true; }
        *c = d >> 1; return d & 1;
      case ExceptCtl_LATCH_JAL: *c = C_INSN_MIS; return lo & 2;
      case ExceptCtl_LATCH_STORE_ADR: *c = C_STORE_MIS; return mis;
      case ExceptCtl_LATCH_LOAD_ADR: *c = C_LOAD_MIS; return mis;
    }
    return false;
  }
  void expect(const u64* in, u64* v, u64* m) const {
    u32 x;
    v[T::O_out__exception] = v[T::O_src__ctrl__exception] = what(in, &x);
    m[T::O_out__exception] = m[T::O_src__ctrl__exception] = 1;
    v[T::O_out__mcause] = c; m[T::O_out__mcause] = k ? 0xFFFFFFFF : 0;
  }
  void next(const u64* in) {
    u32 x;
    if (in[0]) k = false;
    else if (what(in, &x)) k = true, c = x;
    else switch (in[T::I_src__ctrl__except_ctl]) {   // asked, and nothing happened: "qualified by exception"
      case ExceptCtl_LATCH_DECODER: case ExceptCtl_LATCH_JAL: case ExceptCtl_LATCH_STORE_ADR: case ExceptCtl_LATCH_LOAD_ADR: k = false;
    }
  }
};
typedef Unit<T, Mod> Ex;
static const int CTL[] = {ExceptCtl_NONE, ExceptCtl_LATCH_DECODER, ExceptCtl_LATCH_JAL, ExceptCtl_LATCH_STORE_ADR, ExceptCtl_LATCH_LOAD_ADR, ExceptCtl_ENTER_INT, ExceptCtl_LEAVE_INT};
int main(int argc, char** argv) {
  int tier = !strcmp(argv[1], "thorough");
  CShared sh;
  {
    Ex u(sh, "every reachable state x every input");
    std::deque<Ex::Node> q;   // stable addresses
    std::set<std::string> seen;
    auto key = [](const Ex::Node& n) { return std::string((const char*)&n.s, sizeof n.s) + std::string((const char*)&n.m.c, 4) + (n.m.k ? "k" : "-"); };
    q.push_back(u.root()); seen.insert(key(q[0]));
    std::vector<u32> dec = {0, 1 | 2 << 1, 1 | 3 << 1, 1 | 11 << 1, 11 << 1};
    for (int i = 0; i < 16; i++) dec.push_back(1 | i << 1), dec.push_back(i << 1);
    for (size_t h = 0; h < q.size() && !u.bad; h++)
      for (int e : CTL) for (int sz = 0; sz < 4; sz++) for (int lo = 0; lo < 4; lo++) for (int en = 0; en < 8; en++) for (int other = 0; other < 4; other++) for (u32 d : dec) for (int rst = 0; rst < 2; rst++) {
        if (sz == MemSel_AUTO && (e == ExceptCtl_LATCH_STORE_ADR || e == ExceptCtl_LATCH_LOAD_ADR)) continue;   // no access in progress
        Ex::In i; i[0] = rst;
        i[T::I_src__ctrl__except_ctl] = e; i[T::I_src__ctrl__mem_sel] = sz; i[T::I_src__alu_lo] = lo; i[T::I_src__decode] = d;
        i[T::I_src__csr__mstatus] = 3 << 11 | (en & 1) << 3 | (other & 1) << 7; i[T::I_src__csr__mip] = (en >> 1 & 1) << 11 | (other >> 1) * 0x88; i[T::I_src__csr__mie] = (en >> 2) << 11;
        Ex::Node n;
        if (!u.go(q[h], i, n)) goto out;
        u.leaf(n);
        if (q.size() < 5000) { if (seen.insert(key(n)).second) q.push_back(n); }
        else if (!seen.count(key(n))) sh.exhaustive = false;
      }
  out:
    sh.counters["reachable states"] = q.size();
  }
  cfinish(sh, argv[2]);
}
