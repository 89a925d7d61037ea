// C34: two builds of the same design whose netlists differ, side by side.
// hist <tier> <out.json>; HDR holds both as T_h_a (built first in a fresh
// process) and T_h_b (built after some history).
#include HDR
#include "enc.h"
typedef T_h_a TA;
typedef T_h_b TB;
static_assert(TA::NI == TB::NI && TA::NO == TB::NO, "same ports");
static long states = 0, transitions = 0;
static std::string bad;
struct Pair {
  TA::State a; TB::State b;
  std::string in;
  // false: outputs differ
  bool step(const u64* v, u64* oa) {
    u64 ob[TA::NO + 1];
    TA::step(a, v, oa); TB::step(b, v, ob);
    transitions++;
    for (int k = 0; k < TA::NO; k++) if (oa[k] != ob[k]) {
      char t[200];
      snprintf(t, sizeof t, "%s is %llx instead of %llx", TA::oname(k), (unsigned long long)ob[k], (unsigned long long)oa[k]);
      bad = std::string(t) + " with inputs";
      for (int j = 0; j < TA::NI; j++) { snprintf(t, sizeof t, " %s=%llx", TA::iname(j), (unsigned long long)v[j]); bad += t; }
      return false;
    }
    return true;
  }
};
static int in_of(const char* n) { for (int k = 0; k < TA::NI; k++) if (!strcmp(TA::iname(k), n)) return k; return -1; }
static int out_of(const char* n) { for (int k = 0; k < TA::NO; k++) if (!strcmp(TA::oname(k), n)) return k; return -1; }
// a core: programs of all instruction words below, one after the other
static bool core(Pair p, const std::vector<u32>& ws, int depth, int irq) {
  static const int I = in_of("irq"), K = in_of("bus__ack"), R = in_of("bus__dat_r"), Y = out_of("bus__cyc"), W = out_of("bus__we"), S = out_of("bus__sel");
  u64 v[TA::NI] = {}, o[TA::NO + 1];
  bool asked = false;
  if (I >= 0) v[I] = irq;
  for (int c = 0; c < 120; c++) {
    Pair q = p;
    v[K] = 0; v[R] = 0;
    if (!p.step(v, o)) return false;
    if (!(o[Y] & 1)) { asked = false; continue; }
    if (!asked) { asked = true; continue; }
    asked = false;
    if (o[W] & 1) { v[K] = 1; p = q; if (!p.step(v, o)) return false; continue; }
    states++;
    if (!depth) return true;
    for (u32 w : ws) {
      Pair r = q;
      v[K] = 1; v[R] = w;
      if (!r.step(v, o)) return false;
      if (!core(r, ws, depth - 1, irq)) return false;
    }
    return true;
  }
  return true;
}
static bool unit() {
  std::vector<std::vector<u64>> vs;
  auto m = [](int k) { int w = k ? TA::iwidth(k) : 1; return w >= 64 ? ~0ull : (1ull << w) - 1; };
  static const u64 P[] = {0, ~0ull, 0x5555555555555555ull, 0xAAAAAAAAAAAAAAAAull, 0x0123456789ABCDEFull};
  for (u64 b : P) {
    std::vector<u64> v(TA::NI);
    for (int k = 1; k < TA::NI; k++) v[k] = b & m(k);
    vs.push_back(v);
    for (int k = 0; k < TA::NI; k++) {
      int w = k ? TA::iwidth(k) : 1;
      if (w <= 8) for (u64 x = 0; x <= m(k); x++) { auto u = v; u[k] = x; if (u != v) vs.push_back(u); }
      else for (int j = 0; j < w; j++) { auto u = v; u[k] ^= 1ull << j; vs.push_back(u); }
    }
  }
  u64 o[TA::NO + 1];
  for (auto& x : vs) for (auto& y : vs) {
    Pair p;
    memset((void*)&p.a, 0, sizeof p.a); memset((void*)&p.b, 0, sizeof p.b);
    TA::por(p.a); TB::por(p.b);
    states++;
    if (!p.step(x.data(), o) || !p.step(y.data(), o) || !p.step(x.data(), o) || !p.step(y.data(), o)) return false;
  }
  return true;
}
int main(int argc, char** argv) {
  bool th = !strcmp(argv[1], "thorough");
  bool ok = true;
  if constexpr (TA::CORE) {
    std::vector<u32> ws = {I(-1, 0, 0, 1), R(0x20, 1, 2, 0, 3), U(0x80000, 2, 0x37), I(31, 1, 5, 4), B(8, 1, 2, 1), J(16, 5), I(4, 1, 0, 6, 0x67), I(0, 2, 1, 7, 3), S(6, 1, 2, 1), CSR(0x300, 8, 6, 0), CSR(0x305, 1, 1, 0), CSR(0x304, 1, 1, 8), 0x73, 0, 0x30200073, 0xFFFFF0B7, CSR(0x301, 0, 2, 3), CSR(0x340, 2, 1, 1), CSR(0x7C0, 0, 2, 4), I(1, 1, 0, 7, 3)};
    for (int irq = 0; irq < 2 && ok; irq++) {
      Pair p;
      memset((void*)&p.a, 0, sizeof p.a); memset((void*)&p.b, 0, sizeof p.b);
      TA::por(p.a); TB::por(p.b);
      ok = core(p, ws, th ? 5 : 4, irq);
    }
  }
  else ok = unit();
  FILE* f = fopen(argv[2], "w");
  std::string q;
  for (char c : bad) { if (c == '"' || c == '\\') q += '\\'; q += c; }
  fprintf(f, "{\"states\": %ld, \"transitions\": %ld, \"bad\": \"%s\"}\n", states, transitions, q.c_str());
  fclose(f);
  return 0;
}
