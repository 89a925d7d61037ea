// C23: ALU(width) against the documented operations.  alu <tier> <out.json>
#include "dut_alu.h"
#include <unordered_set>
static int tier;
static u64 msk(int w) { return w == 64 ? ~0ull : (1ull << w) - 1; }
// what the documentation of OpType, ALUIMod and ALUOMod says o becomes
static u64 ref(int w, u64 a, u64 b, int op, int im, int om) {
  u64 m = msk(w), top = 1ull << (w - 1), r = 0;
  if (im == ALUIMod_INV_MSB_A_B) a ^= top, b ^= top;
  switch (op) {
    case OpType_ADD: r = a + b; break;
    case OpType_SUB: r = a - b; break;
    case OpType_AND: r = a & b; break;
    case OpType_OR: r = a | b; break;
    case OpType_XOR: r = a ^ b; break;
    case OpType_SLL: r = a << 1; break;
    case OpType_SRL: r = a >> 1; break;
    case OpType_SRA: r = a >> 1 | (a & top); break;
    case OpType_CMP_LTU: r = a < b; break;
  }
  r &= m;
  if (om == ALUOMod_INV_LSB_O) r ^= 1;
  if (om == ALUOMod_CLEAR_LSB_O) r &= ~1ull;
  return r;
}
static const int OPSV[] = {OpType_ADD, OpType_SUB, OpType_AND, OpType_OR, OpType_XOR, OpType_SLL, OpType_SRL, OpType_SRA, OpType_CMP_LTU};
static const int IMS[] = {ALUIMod_NONE, ALUIMod_INV_MSB_A_B}, OMS[] = {ALUOMod_NONE, ALUOMod_INV_LSB_O, ALUOMod_CLEAR_LSB_O};
template <class T> struct A {
  CShared& sh;
  static constexpr int W = T::PARAM;
  u64 tr = 0, nst = 0;
  bool bad = false;
  typedef std::vector<std::vector<u64>> Rows;
  // one cycle; `want` is what o must show in this cycle (the previous result)
  bool cyc(typename T::State& s, u64 a, u64 b, int op, int im, int om, u64 want, Rows* rows, u64* next, const char* label, const Rows* pre = nullptr) {
    u64 in[T::NI] = {0, a, b, (u64)op, (u64)im, (u64)om}, out[T::NO];
    T::template step<true>(s, in, out);
    tr++;
    if (rows) { std::vector<u64> r(in, in + T::NI); r.insert(r.end(), out, out + T::NO); rows->push_back(r); }
    *next = ref(W, a, b, op, im, om);
    if (out[0] == want && out[1] == (want == 0)) return true;
    if (rows) {
      std::lock_guard<std::mutex> g(sh.mu);
      if (sh.viol.size() < 12) sh.viol.push_back({T::NAME, label, fmt("ALU(%d): o=%llx zero=%d, expected %llx %d", W, (unsigned long long)out[0], (int)out[1], (unsigned long long)want, want == 0), *rows});
    }
    return false;
  }
  // result of (a,b,op,im,om) issued in state s (whose output must be `cur`)
  bool one(const typename T::State& s, const std::vector<std::vector<u64>>& path, u64 cur, u64 a, u64 b, int op, int im, int om, const char* label) {
    typename T::State t = s;
    u64 n, n2;
    if (cyc(t, a, b, op, im, om, cur, nullptr, &n, label) && cyc(t, 0, 0, OPSV[0], IMS[0], OMS[0], n, nullptr, &n2, label)) return true;
    // again, with a trace, from power-on
    typename T::State u; T::por(u);
    Rows rows; u64 w = 0;
    for (auto& p : path) if (!cyc(u, p[0], p[1], p[2], p[3], p[4], w, &rows, &w, label)) { bad = true; return false; }
    if (cyc(u, a, b, op, im, om, w, &rows, &w, label)) cyc(u, 0, 0, OPSV[0], IMS[0], OMS[0], w, &rows, &w, label);
    bad = true;
    return false;
  }
  static u64 code(u64 a, u64 b, int o, int i, int m) { return (((a << W | b) * 9 + o) * 2 + i) * 3 + m; }
  void sample(const std::vector<std::vector<u64>>& seq, const char* label) {
    typename T::State u; T::por(u);
    Rows rows; u64 w = 0;
    for (auto& p : seq) if (!cyc(u, p[0], p[1], p[2], p[3], p[4], w, &rows, &w, label)) { bad = true; return; }
    std::lock_guard<std::mutex> g(sh.mu);
    sh.samples.push_back({T::NAME, label, fmt("%zu operations", seq.size()), rows});
  }
  // every reachable state x every input (small widths)
  void full() {
    if (bad) return;
    struct N { typename T::State s; std::vector<std::vector<u64>> path; u64 cur; };
    std::vector<N> q(1);
    std::unordered_set<std::string> seen;
    T::por(q[0].s); q[0].cur = 0;
    auto key = [](const typename T::State& s) { return std::string((const char*)&s, sizeof s); };
    seen.insert(key(q[0].s));
    for (size_t h = 0; h < q.size() && !bad; h++) {
      for (u64 a = 0; a <= msk(W); a++) for (u64 b = 0; b <= msk(W); b++) for (int op : OPSV) for (int im : IMS) for (int om : OMS) {
        typename T::State t = q[h].s;
        u64 n;
        if (!one(q[h].s, q[h].path, q[h].cur, a, b, op, im, om, "all states x all inputs")) return;
        cyc(t, a, b, op, im, om, q[h].cur, nullptr, &n, "");
        if (q.size() < 4096 && seen.insert(key(t)).second) { N x; x.s = t; x.path = q[h].path; x.path.push_back({a, b, (u64)op, (u64)im, (u64)om}); x.cur = n; q.push_back(x); }
        else if (q.size() >= 4096 && !seen.count(key(t))) { std::lock_guard<std::mutex> g(sh.mu); sh.exhaustive = false; }
      }
    }
    nst += q.size();
  }
  // every operand pair, from a few states
  void pairs() {
    if (bad) return;
    for (int st = 0; st < 3 && !bad; st++) {
      typename T::State s; T::por(s);
      std::vector<std::vector<u64>> path; u64 cur = 0, n;
      if (st) { path.push_back({msk(W), st == 1 ? 0 : msk(W), (u64)(st == 1 ? OpType_OR : OpType_SUB), (u64)IMS[0], (u64)OMS[st - 1]}); auto& p = path[0]; cyc(s, p[0], p[1], p[2], p[3], p[4], 0, nullptr, &n, ""); cur = n; }
      for (u64 a = 0; a <= msk(W) && !bad; a++) for (u64 b = 0; b <= msk(W) && !bad; b++) for (int op : OPSV) for (int im : IMS) for (int om : OMS)
        if (!one(s, path, cur, a, b, op, im, om, "all operand pairs")) return;
      nst++;
    }
  }
  // structured operands at every width, every ordered pair of operations
  void structured() {
    if (bad) return;
    std::set<u64> vs;
    u64 m = msk(W);
    for (int i = 0; i < W; i++) { u64 o = 1ull << i; for (u64 v : {o, o - 1, ~o, ~(o - 1), o + 1, o | 1, o ^ (m >> 1)}) vs.insert(v & m); }
    for (u64 v : {0ull, ~0ull, 0x5555555555555555ull, 0xAAAAAAAAAAAAAAAAull, 0x0123456789ABCDEFull, 0xFEDCBA9876543210ull}) { vs.insert(v & m); vs.insert(v >> (64 - W)); }
    std::vector<u64> v(vs.begin(), vs.end());
    typename T::State s; T::por(s);
    for (u64 a : v) for (u64 b : v) for (int op : OPSV) for (int im : IMS) for (int om : OMS)
      if (!one(s, {}, 0, a, b, op, im, om, "structured operands")) return;
    nst++;
    std::vector<u64> few = {0, 1, m, m >> 1, 1ull << (W - 1), 0x5555555555555555ull & m};
    for (u64 a : few) for (u64 b : few) for (int op : OPSV) for (int im : IMS) for (int om : OMS) {
      typename T::State t = s; u64 n;
      cyc(t, a, b, op, im, om, 0, nullptr, &n, "");
      nst++;
      for (u64 c : few) for (u64 d : few) for (int o2 : OPSV) for (int i2 : IMS) for (int m2 : OMS) {
        if (!tier && (a ^ d) % 3 && im) continue;
        if (!one(t, {{a, b, (u64)op, (u64)im, (u64)om}}, n, c, d, o2, i2, m2, "after another operation")) return;
      }
    }
    std::vector<std::vector<u64>> seq;
    for (int op : OPSV) for (int im : IMS) for (int om : OMS) for (u64 a : few) for (u64 b : few) seq.push_back({a, b, (u64)op, (u64)im, (u64)om});
    sample(seq, "every operation");
  }
  void done() { std::lock_guard<std::mutex> g(sh.mu); sh.states += nst; sh.transitions += tr; sh.counters[fmt("width_%02d", W)] = tr; }
};
template <class T> static void run(CShared& sh) {
  A<T> a{sh};
  a.structured();
  if constexpr (T::PARAM <= 5) a.full();
  else if constexpr (T::PARAM <= 8) a.pairs();
  else if constexpr (T::PARAM <= 10) { if (tier) a.pairs(); }
  a.done();
}
int main(int argc, char** argv) {
  tier = !strcmp(argv[1], "thorough");
  CShared sh;
  std::vector<std::function<void()>> jobs;
#define JOB(T) jobs.push_back([&] { run<T>(sh); });
  FOR_ALL(JOB)
  crun(jobs);
  cfinish(sh, argv[2]);
}
