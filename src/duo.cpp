// C34: two cores placed in one design, beside the same core alone, twice.
// duo <tier> <out.json>; HDR holds the pair as T_h_a and the core as T_h_b.
// Every pair of instruction sequences, with core 1's accesses answered after
// 0..W extra cycles: each core's outputs must be those of the core alone.
#include HDR
#include "enc.h"
typedef T_h_a D;
typedef T_h_b C1;
static long states = 0, transitions = 0;
static std::string bad;
static int idx(int n, const char* (*name)(int), const std::string& s) { for (int k = 0; k < n; k++) if (s == name(k)) return k; return -1; }
static int din[2][C1::NI], dout[2][C1::NO + 1], pK, pR, pY, pW;
struct Sys {
  D::State d; C1::State c[2];
  bool step(const u64 v[2][C1::NI], u64 o[2][C1::NO + 1]) {
    u64 dv[D::NI] = {}, eo[D::NO + 1];
    dv[0] = v[0][0];
    for (int k = 0; k < 2; k++) {
      for (int j = 1; j < C1::NI; j++) dv[din[k][j]] = v[k][j];
      C1::step(c[k], v[k], o[k]);
    }
    D::step(d, dv, eo);
    transitions++;
    for (int k = 0; k < 2; k++) for (int j = 0; j < C1::NO; j++) if (eo[dout[k][j]] != o[k][j]) {
      char t[200];
      snprintf(t, sizeof t, "%s of core %d is %llx instead of %llx", C1::oname(j), k, (unsigned long long)eo[dout[k][j]], (unsigned long long)o[k][j]);
      bad = t;
      return false;
    }
    return true;
  }
};
static std::vector<u32> ws;
// left[k]: words core k may still fetch; asked[k]: cycles its access has waited
static bool go(Sys s, int l0, int l1, int a0, int a1, int wait1, int irq) {
  int left[2] = {l0, l1}, asked[2] = {a0, a1};
  for (int c = 0; c < 200; c++) {
    u64 v[2][C1::NI] = {}, o[2][C1::NO + 1];
    static const int I = idx(C1::NI, C1::iname, "irq");
    if (I >= 0) { v[0][I] = irq & 1; v[1][I] = irq >> 1; }
    Sys p = s;
    if (!p.step(v, o)) return false;
    bool want[2];
    for (int k = 0; k < 2; k++) {
      asked[k] = o[k][pY] & 1 ? asked[k] + 1 : 0;
      want[k] = asked[k] > (k ? 1 + wait1 : 1);
    }
    if (!want[0] && !want[1]) { s = p; continue; }
    if ((want[0] && !(o[0][pW] & 1) && !left[0]) || (want[1] && !(o[1][pW] & 1) && !left[1])) return true;
    states++;
    int n[2];
    for (int k = 0; k < 2; k++) {
      n[k] = want[k] && !(o[k][pW] & 1) ? (int)ws.size() : 1;
      if (n[k] > 1) left[k]--;
      if (want[k]) { v[k][pK] = 1; asked[k] = 0; }
    }
    bool branch = n[0] > 1 || n[1] > 1;
    for (int x = 0; x < n[0]; x++) for (int y = 0; y < n[1]; y++) {
      Sys q = s;
      u64 o2[2][C1::NO + 1];
      if (n[0] > 1) v[0][pR] = ws[x];
      if (n[1] > 1) v[1][pR] = ws[y];
      if (!q.step(v, o2)) return false;
      if (!branch) { s = q; continue; }
      if (!go(q, left[0], left[1], asked[0], asked[1], wait1, irq)) return false;
    }
    if (branch) return true;
  }
  return true;
}
int main(int argc, char** argv) {
  bool th = !strcmp(argv[1], "thorough");
  pK = idx(C1::NI, C1::iname, "bus__ack"); pR = idx(C1::NI, C1::iname, "bus__dat_r");
  pY = idx(C1::NO, C1::oname, "bus__cyc"); pW = idx(C1::NO, C1::oname, "bus__we");
  bool ok = pK >= 0 && pR >= 0 && pY >= 0 && pW >= 0;
  for (int k = 0; k < 2; k++) {
    for (int j = 1; j < C1::NI; j++) ok &= (din[k][j] = idx(D::NI, D::iname, std::string(C1::iname(j)) + (k ? "__1" : "__0"))) >= 0;
    for (int j = 0; j < C1::NO; j++) ok &= (dout[k][j] = idx(D::NO, D::oname, std::string(C1::oname(j)) + (k ? "__1" : "__0"))) >= 0;
  }
  ws = {I(-1, 0, 0, 1), R(0x20, 1, 2, 0, 3), U(0x80000, 2, 0x37), I(31, 1, 5, 4), B(8, 1, 2, 1), J(16, 5), S(6, 1, 2, 1), CSR(0x300, 8, 6, 0), CSR(0x305, 1, 1, 0), CSR(0x304, 1, 1, 8), 0x73, 0x30200073};
  if (th) { ws.push_back(0); ws.push_back(I(0, 2, 1, 7, 3)); ws.push_back(CSR(0x344, 0, 2, 9)); }
  if (!ok) bad = "no core to compare with";
  for (int wait = 0; wait < (th ? 3 : 2) && bad.empty(); wait++)
    for (int irq = 0; irq < 4 && bad.empty(); irq++) {
      Sys s;
      memset((void*)&s, 0, sizeof s);
      D::por(s.d); C1::por(s.c[0]); C1::por(s.c[1]);
      go(s, 3, th ? 3 : 2, 0, 0, wait, irq);
    }
  FILE* f = fopen(argv[2], "w");
  fprintf(f, "{\"states\": %ld, \"transitions\": %ld, \"bad\": \"%s\"}\n", states, transitions, bad.c_str());
  fclose(f);
}
