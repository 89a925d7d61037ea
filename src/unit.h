// Tree exploration of a component next to a reference model.
// Mod: void por(); void expect(const u64* in, u64* val, u64* msk) const;
//      void next(const u64* in); bool loose(int k) const: output k is not to
//      be compared on replay (netlist and simulator differ, see dp.cpp).
//      const char* excuse(const u64* out), optional: the name of one particular
//      wrong behaviour if `out` is exactly that; it becomes part of the model
//      (reported once under that name) and exploration goes on.
// Outputs are compared with `expect` in every cycle on the bits of msk.
#pragma once
#include "comp.h"
#include "iss.h"
#include "enc.h"
#include <deque>
#include <unordered_set>
template <class M> static auto excused(M& m, const u64* out, int) -> decltype(m.excuse(out)) { return m.excuse(out); }
template <class M> static const char* excused(M&, const u64*, long) { return nullptr; }
template <class T, class Mod> struct Unit {
  CShared& sh;
  const char* label;
  typedef std::vector<std::vector<u64>> Rows;
  struct In { u64 v[T::NI]; In() { memset(v, 0, sizeof v); } u64& operator[](int i) { return v[i]; } };
  struct Node { typename T::State s; Mod m; const Node* up = nullptr; In in; };
  u64 nodes = 0, tr = 0, keepat = 1, maxrows = ~0ull;   // longer traces are not kept
  bool bad = false;
  std::vector<CTrace> keep;
  Unit(CShared& s, const char* l) : sh(s), label(l) {}
  ~Unit() {
    std::lock_guard<std::mutex> g(sh.mu);
    sh.states += nodes; sh.transitions += tr; sh.counters[label] += nodes;
    for (auto& k : keep) sh.samples.push_back(k);
  }
  Node root() { Node n; T::por(n.s); n.m.por(); return n; }
  static bool same(const Mod& m, const In& in, const u64* out, std::string* why) {
    u64 val[T::NO] = {0}, msk[T::NO] = {0};
    m.expect(in.v, val, msk);
    for (int k = 0; k < T::NO; k++) if ((out[k] ^ val[k]) & msk[k]) {
      if (why) *why = fmt("%s: output %s is %llx, expected %llx (bits %llx)", T::NAME, T::oname(k), (unsigned long long)out[k], (unsigned long long)val[k], (unsigned long long)msk[k]);
      return false;
    }
    return true;
  }
  // one cycle from p into c (c may be p's copy target on the stack)
  bool go(const Node& p, const In& in, Node& c) {
    c.s = p.s; c.m = p.m; c.up = &p; c.in = in;
    return in_place(c);
  }
  bool in_place(Node& c) {
    u64 out[T::NO];
    T::template step<true>(c.s, c.in.v, out);
    tr++;
    if (!same(c.m, c.in, out, nullptr)) {
      Mod before = c.m;
      const char* known = excused(c.m, out, 0);
      if (!known || !same(c.m, c.in, out, nullptr)) { c.m = before; report(c); return false; }
      finding(known, c);
    }
    c.m.next(c.in.v);
    return true;
  }
  Rows rows(const Node& leaf, std::string* why) {
    std::vector<const Node*> p;
    for (const Node* n = &leaf; n->up; n = n->up) p.push_back(n);
    Node r = root();
    Rows out;
    for (size_t i = p.size(); i--;) {
      u64 o[T::NO];
      T::template step<true>(r.s, p[i]->in.v, o);
      std::vector<u64> row(p[i]->in.v, p[i]->in.v + T::NI);
      for (int k = 0; k < T::NO; k++) row.push_back(r.m.loose(k) ? ~0ull : o[k]);
      out.push_back(row);
      if (!same(r.m, p[i]->in, o, why) && !(excused(r.m, o, 0) && same(r.m, p[i]->in, o, nullptr))) break;
      r.m.next(p[i]->in.v);
    }
    return out;
  }
  void report(const Node& c) {
    bad = true;
    std::string why = "?";
    Rows r = rows(c, &why);
    std::lock_guard<std::mutex> g(sh.mu);
    if (sh.viol.size() < 12) sh.viol.push_back({T::NAME, label, why, r});
  }
  void finding(const char* key, const Node& c) {
    {
      std::lock_guard<std::mutex> g(sh.mu);
      if (sh.findings.count(key)) return;
      sh.findings[key];
    }
    std::string why = "?";
    Rows r = rows(c, &why);
    std::lock_guard<std::mutex> g(sh.mu);
    sh.findings[key] = {T::NAME, label, why, r, key};
  }
  // leaves kept for replay: powers of two and every 65537th
  void leaf(const Node& c) {
    if (++nodes == keepat || nodes % 65537 == 0) {
      if (nodes == keepat) keepat *= 2;
      if (keep.size() < 40) keep.push_back({T::NAME, label, fmt("leaf %llu", (unsigned long long)nodes), rows(c, nullptr)});
    }
  }
  // Breadth-first to a fixpoint: every input `moves` names in every reachable
  // (state, model) pair.  Mod: std::string key() const.  Returns the states.
  template <class F> u64 reach(F moves, size_t cap) {
    std::deque<Node> q;   // stable addresses
    std::deque<u32> depth;
    std::unordered_set<std::string> seen;
    auto key = [](const Node& n) { return std::string((const char*)&n.s, sizeof n.s) + n.m.key(); };
    q.push_back(root()); depth.push_back(0); seen.insert(key(q[0]));
    std::vector<In> mv;
    for (size_t h = 0; h < q.size(); h++) {
      mv.clear(); moves(q[h], mv);
      for (const In& i : mv) {
        Node n;
        if (!go(q[h], i, n)) return q.size();
        if (depth[h] < maxrows) leaf(n); else nodes++;
        if (seen.size() >= cap) { if (!seen.count(key(n))) sh.exhaustive = false; continue; }
        if (seen.insert(key(n)).second) q.push_back(n), depth.push_back(depth[h] + 1);
      }
    }
    return q.size();
  }
};
