// C24: Control running any microprogram, against the documented sequencing.
// ctl <tier> <out.json>
#include "dut_ctl.h"
#include <unordered_map>
// what the CPU's other parts see of one microinstruction, and what comes next
struct M { int cur; int next; bool force; };   // cur: address, -1 zero word, -2 undefined (after a reset)
template <class T> static int adr_of(const M& m, u64 zero, u64 exc, u64 valid, u64 req) {
  if (m.force) return 2;
  static const u8 Z[64] = {0};
  const u8* w = m.cur < 0 ? Z : T::W[m.cur];
  const int J = T::NO, CT = J + 1, INV = J + 2;
  bool raw = w[CT] == CondTest_EXCEPTION ? exc : w[CT] == CondTest_CMP_ALU_O_ZERO ? zero : w[CT] == CondTest_MEM_VALID ? valid : 1;
  bool t = raw ^ (w[INV] & 1);
  int tgt = w[T::TARGET];
  if (w[J] == JmpType_MAP) return t ? tgt : req;
  if (w[J] == JmpType_DIRECT) return t ? tgt : m.next;
  if (w[J] == JmpType_DIRECT_ZERO) return t ? tgt : 0;
  return m.next;
}
template <class T> struct X {
  CShared& sh;
  typedef std::vector<std::vector<u64>> Rows;
  struct N { typename T::State s; M m; int parent; u64 in[T::NI]; };
  std::vector<N> q;
  u64 tr = 0;
  // checks the cycle's outputs, returns the model's successor
  bool cyc(typename T::State& s, M& m, const u64* in, Rows* rows, std::string* why) {
    u64 out[T::NO];
    T::template step<true>(s, in, out);
    tr++;
    if (rows) { std::vector<u64> r(in, in + T::NI); r.insert(r.end(), out, out + T::NO); rows->push_back(r); }
    if (m.cur != -2) for (int k = 0; k < T::NO; k++) {
      u64 want = m.cur < 0 ? 0 : T::W[m.cur][k];
      if (out[k] != want) { if (why) *why = fmt("microprogram %d: output %d is %llu, expected %llu (microinstruction %d)", T::PARAM, k, (unsigned long long)out[k], (unsigned long long)want, m.cur); return false; }
    }
    int a = adr_of<T>(m, in[1], in[2], in[3], in[4]);
    if (in[0]) m = {-2, 2, true};
    else m = {a, (a + 1) & 255, false};
    return true;
  }
  Rows path(int i, typename T::State& s, M& m) {
    std::vector<int> p;
    for (int k = i; q[k].parent >= 0; k = q[k].parent) p.push_back(k);
    T::por(s); m = {-1, 2, true};
    Rows rows;
    for (int k = p.size(); k--;) cyc(s, m, q[p[k]].in, &rows, nullptr);
    return rows;
  }
  bool fail(int i, const u64* in) {
    typename T::State s; M m; Rows r = path(i, s, m);
    std::string why = "microprogram leaves its specification";
    // the fault may only show in the next cycle
    if (cyc(s, m, in, &r, &why)) { u64 z[T::NI] = {0}; cyc(s, m, z, &r, &why); }
    std::lock_guard<std::mutex> g(sh.mu);
    if (sh.viol.size() < 12) sh.viol.push_back({T::NAME, "reachable states", why, r});
    return false;
  }
  void go() {
    auto key = [](const N& n) { return std::string((const char*)&n.s, sizeof n.s) + std::string((const char*)&n.m.cur, 4) + std::string((const char*)&n.m.next, 4) + (n.m.force ? "f" : "-"); };
    std::unordered_map<std::string, int> seen;
    N r; T::por(r.s); r.m = {-1, 2, true}; r.parent = -1;
    q.push_back(r); seen[key(r)] = 0;
    for (size_t h = 0; h < q.size(); h++) {
      auto tryit = [&](const u64* in) {
        N n; n.s = q[h].s; n.m = q[h].m; n.parent = h; memcpy(n.in, in, sizeof n.in);
        if (!cyc(n.s, n.m, in, nullptr, nullptr)) return fail(h, in);
        if (q.size() < 60000) { if (seen.emplace(key(n), (int)q.size()).second) q.push_back(n); }
        else if (!seen.count(key(n))) { std::lock_guard<std::mutex> g(sh.mu); sh.exhaustive = false; }
        return true;
      };
      for (u64 t = 0; t < 8; t++) {
        for (u64 req = 0; req < 256; req++) { u64 in[] = {0, t & 1, t >> 1 & 1, t >> 2, req, req & 31}; if (!tryit(in)) return; }
        for (u64 op = 0; op < 32; op++) { u64 in[] = {0, t & 1, t >> 1 & 1, t >> 2, 0xA5, op}; if (!tryit(in)) return; }
        for (u64 req : {0, 2, 85, 255}) { u64 in[] = {1, t & 1, t >> 1 & 1, t >> 2, req, 0}; if (!tryit(in)) return; }
      }
    }
    // every state's path, and one long walk through all inputs, are replayed
    std::set<int> leaf;
    for (size_t i = 0; i < q.size() && i < 4000; i++) leaf.insert(i);
    for (size_t i = 0; i < q.size(); i++) leaf.erase(q[i].parent);
    std::vector<CTrace> keep;
    Rows all;
    for (int i : leaf) {
      typename T::State s; M m; Rows p = path(i, s, m);
      if (keep.size() < 60) keep.push_back({T::NAME, "path to a state", fmt("microinstruction %d", m.cur), p});
    }
    typename T::State s; T::por(s); M m = {-1, 2, true};
    u64 x = 88172645463325252ull + T::PARAM;
    for (int i = 0; i < 1500; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; u64 in[] = {(x >> 40) % 97 == 0, x >> 8 & 1, x >> 9 & 1, x >> 10 & 1, x >> 16 & 255, x >> 24 & 31}; cyc(s, m, in, &all, nullptr); }
    keep.push_back({T::NAME, "walk", "1500 cycles", all});
    std::lock_guard<std::mutex> g(sh.mu);
    for (auto& k : keep) sh.samples.push_back(k);
    sh.states += q.size(); sh.transitions += tr;
    sh.counters[fmt("microprogram_%02d_states", T::PARAM)] = q.size();
  }
};
int main(int argc, char** argv) {
  CShared sh;
  std::vector<std::function<void()>> jobs;
#define JOB(T) jobs.push_back([&] { X<T> x{sh}; x.go(); });
  FOR_ALL(JOB)
  crun(jobs);
  cfinish(sh, argv[2]);
}
