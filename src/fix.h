// Closed-program reachability: a fixed program is the memory, the environment
// chooses every cycle's inputs (acknowledge now or later, junk data, interrupt
// line, reset, clock enable), and breadth-first search visits every reachable
// state of design x monitor until nothing new appears.
#pragma once
#include "core.h"
#include "enc.h"

struct Prog {
  std::string name;
  std::vector<u32> w;
  u32 ld[2] = {0x89C4D6E8, 0x00007F03};   // what loads may return
  u32 at(u32 byte) const { u32 i = byte >> 2; return i < w.size() ? w[i] : 0; }
};
struct Env {  // what the environment may do
  bool irq = false, wait = false, junk = false, rst = false, dis = false, wild = false;
  int resets = 1;       // how many times reset may be asserted (for any number of cycles)
  bool calm = false;    // after a reset the environment is quiet
  long cap = 1000000;
};

// ---------------------------------------------------------------- monitor
struct Mon {
  Iss iss;
  u32 word, adr, datw;
  u8 phase, sel, we, pcyc, pack, hi, lo, reset_seen, idle, resets, pad[2];
};
enum { P_BOOT, P_FETCH, P_DECODE, P_DATA, P_POST, P_RST, P_LOST };

// memory all running explorations may take together: beyond it they stop and
// count as capped
inline std::atomic<long> g_fix_bytes{0};
static const long FIX_BYTES = 12L << 30;
template <class N> struct Chunks {   // a vector that never moves its elements
  static const u32 K = 4096;
  std::vector<std::unique_ptr<char[]>> c;
  size_t n = 0;
  N& operator[](size_t i) const { return *(N*)(c[i / K].get() + i % K * sizeof(N)); }
  size_t size() const { return n; }
  void push_back(const N& x) {
    if (n == c.size() * K) { c.emplace_back(new char[K * sizeof(N)]); g_fix_bytes += K * sizeof(N); }
    memcpy((void*)&(*this)[n++], (const void*)&x, sizeof x);
  }
  ~Chunks() { g_fix_bytes -= c.size() * K * sizeof(N); }
};

template <class D, bool MON> struct Fix {
  typedef typename D::State S;
  struct Node { S s; Mon m; };
  const Prog& p;
  Env env;
  Kind kind = V_NONE;
  std::string what;
  Chunks<Node> nodes;
  std::vector<u32> parent;
  std::vector<u8> via;
  std::vector<u32> tab;
  u64 mask, trans = 0;
  bool capped = false;
  long ambiguous = 0;
  std::function<bool(Kind)> want;   // kinds that belong to the property
  Fix(const Prog& p_, Env e) : p(p_), env(e) { mask = (1u << 16) - 1; tab.assign(mask + 1, ~0u); }

  bool fail(Kind k, const char* f, ...) __attribute__((format(printf, 3, 4))) {
    char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    kind = k; what = b;
    return false;
  }
  static bool fetch_of(const typename D::Out& o, u32 pc) { return D::cyc(o) && !D::we(o) && D::sel(o) == 15 && D::adr(o) == pc >> 2; }
  static u32 lanes(u8 s) { return (s & 1 ? 0xFFu : 0) | (s & 2 ? 0xFF00u : 0) | (s & 4 ? 0xFF0000u : 0) | (s & 8 ? 0xFF000000u : 0); }

  void to_fetch(Mon& m, const Iss& n) { m.iss = n; m.phase = P_FETCH; m.hi = m.lo = 1; m.word = 0; m.idle = 0; }
  // does the machine behave like this monitor state from here on?
  const S* cur = nullptr;
  bool looking = false;
  bool keep_lost = false;   // follow the machine where the ISS says it should not be
  long forked = 0;
  bool plausible(const Mon& m) {
    if (looking) return true;
    looking = true;
    Kind k0 = kind; std::string w0 = what; const S* c0 = cur;
    Node n;
    memset(&n, 0, sizeof n);
    n.s = *cur; n.m = m;
    bool ok = true;
    for (int i = 0; ok && i < 160; i++) ok = step(n, n.m.pcyc && !n.m.pack ? 2 : 0, nullptr);
    kind = k0; what = w0; cur = c0; looking = false;
    return ok;
  }
  // one observed cycle; false: violation or pruned (kind V_ABORT)
  bool observe(Mon& m, const typename D::Out& o, bool irq, bool ack, u32 dat, bool rst) {
    u8 cy = D::cyc(o);
    if (cy != D::stb(o)) return fail(V_PROTO, "cyc=%d but stb=%d", cy, D::stb(o));
    if (!rst && !m.reset_seen && m.pcyc) {
      if (m.pack) { if (cy) return fail(V_PROTO, "cyc/stb still asserted in the cycle after ack"); }
      else {
        if (!cy) return fail(V_PROTO, "request withdrawn before ack");
        if (D::adr(o) != m.adr || D::we(o) != m.we || D::sel(o) != m.sel) return fail(V_PROTO, "adr/we/sel changed while waiting for ack");
        if (m.we && ((D::dat_w(o) ^ m.datw) & lanes(m.sel))) return fail(V_PROTO, "write data changed while waiting for ack");
      }
    }
    if (rst) {
      if (m.phase == P_RST && cy) return fail(V_RESET, "bus request during reset");
      u8 nr = m.resets + (m.phase != P_RST);
      memset(&m, 0, sizeof m);
      m.phase = P_RST; m.reset_seen = 1; m.resets = nr;
      return true;
    }
    m.reset_seen = 0;
    switch (m.phase) {
      case P_RST:
        if (cy) return fail(V_RESET, "bus request in the first cycle after reset");
        m.phase = P_BOOT;
        break;
      case P_BOOT:
        if (cy) {
          if (!fetch_of(o, 0)) return fail(V_RESET, "first request after reset is adr=%08x we=%d", D::adr(o) << 2, D::we(o));
          Iss z; memset(&z, 0, sizeof z);
          to_fetch(m, z);
        } else if (++m.idle > 140) return fail(V_HANG, "no fetch after reset");
        break;
      case P_FETCH:
        if (irq) m.lo = 0; else m.hi = 0;
        if (ack) { m.phase = P_DECODE; m.word = dat; m.idle = 0; }
        break;
      case P_DECODE: {
        if (irq) m.lo = 0; else m.hi = 0;
        if (!cy) { if (++m.idle > 140) return fail(V_HANG, "no request for 140 cycles after the fetch of %08x (word %08x)", m.iss.pc, m.word); break; }
        Iss post = m.iss;
        Eff e = iss_step(post, m.word, 0, m.hi);
        bool en = (m.iss.mstatus & MIE_BIT) && (m.iss.mie & MEI_BIT);
        bool m_no = e.mem ? (D::we(o) == e.we && D::adr(o) == e.adr && D::sel(o) == e.sel) : fetch_of(o, post.pc);
        bool m_int = fetch_of(o, m.iss.mtvec), must = en && m.hi, can = en && !m.lo;
        if (must && !m_int) return fail(V_IRQ, "interrupt pending and enabled at pc %08x (word %08x) but not taken", m.iss.pc, m.word);
        if (!must && can && m_int && m_no) {   // an exception or the interrupt: the handler can tell
          Mon a = m, b = m;
          Iss n = m.iss; iss_trap(n, 0x8000000Bu);
          to_fetch(a, post); to_fetch(b, n);
          a.pcyc = b.pcyc = 1; a.pack = b.pack = 0; a.adr = b.adr = D::adr(o); a.sel = b.sel = 15; a.we = b.we = 0;
          forked++;
          if (plausible(a)) { to_fetch(m, post); break; }
          if (plausible(b)) { to_fetch(m, n); break; }
          return fail(V_IRQ, "neither the exception of %08x at %08x nor an interrupt explains what the handler sees", m.word, m.iss.pc);
        }
        if (must || (can && m_int)) { Iss n = m.iss; iss_trap(n, 0x8000000Bu); to_fetch(m, n); break; }
        if (!m_no) {
          if (m_int && !e.trap) return fail(en ? V_IRQ : V_NEXT, "trap taken at pc %08x word %08x although %s", m.iss.pc, m.word, en ? "the interrupt line was low" : "nothing traps there");
          return fail(e.mem ? V_MEM : V_NEXT, "pc %08x word %08x: bus shows %s adr=%08x sel=%x", m.iss.pc, m.word, D::we(o) ? "write" : "read", D::adr(o) << 2, D::sel(o));
        }
        if (e.mip_read && !m.hi && !m.lo) { ambiguous++; return fail(V_ABORT, "ambiguous"); }
        if (e.mem) {
          if (e.we && ((D::dat_w(o) ^ e.wdata) & lanes(e.sel))) return fail(V_MEM, "pc %08x word %08x: store of %08x expected on lanes %x, bus has %08x", m.iss.pc, m.word, e.wdata, e.sel, D::dat_w(o));
          m.phase = P_DATA;
        } else to_fetch(m, post);
        break;
      }
      case P_DATA:
        if (ack) { iss_step(m.iss, m.word, dat, false); m.phase = P_POST; m.idle = 0; m.word = 0; m.hi = m.lo = 0; }
        break;
      case P_LOST:   // not where the ISS is; the bus rules and progress still apply
        if (cy) m.idle = 0; else if (++m.idle > 140) return fail(V_HANG, "no request for 140 cycles");
        break;
      case P_POST:
        if (!cy) { if (++m.idle > 140) return fail(V_HANG, "no request for 140 cycles after a data access"); break; }
        if (!fetch_of(o, m.iss.pc)) return fail(V_NEXT, "expected fetch of %08x after the access, bus shows adr=%08x we=%d", m.iss.pc, D::adr(o) << 2, D::we(o));
        to_fetch(m, m.iss);
        break;
    }
    m.pcyc = cy; m.pack = cy && ack;
    m.adr = cy ? D::adr(o) : 0; m.sel = cy ? D::sel(o) : 0; m.we = cy ? D::we(o) : 0; m.datw = cy && D::we(o) ? D::dat_w(o) : 0;
    return true;
  }
  // equivalence products only need to know what the bus shows
  bool follow(Mon& m, const typename D::Out& o, bool ack, bool rst, bool en) {
    const char* d = D::differs(o);
    if (d) return fail(V_EXTRA, "%s", d);
    if (!en) return true;
    m.resets += rst && !m.reset_seen;
    m.reset_seen = rst;
    u8 cy = D::cyc(o);
    m.pcyc = cy && !rst; m.pack = cy && ack;
    m.adr = cy ? D::adr(o) : 0;
    return true;
  }

  // input code: bit0 irq, bit1 ack, bit2 rst, bit3 disabled, bits4.. data choice
  u32 data(const Mon& m, u8 code) const {
    u8 k = code >> 4;
    if ((code & 2) && m.pcyc && !m.pack) {
      if (MON && m.phase != P_LOST ? (m.phase == P_DATA) : (m.adr >= 0x100)) return p.ld[k & 1];
      return p.at(m.adr << 2);
    }
    static const u32 J[] = {0, 0xFFFF8F93u, 0x30200073u, 0xFFFFFFFFu};
    return J[k & 3];
  }
  bool is_load(const Mon& m) const { return MON && m.phase != P_LOST ? (m.phase == P_DATA && !m.we) : m.adr >= 0x100; }
  bool step(Node& n, u8 code, std::vector<Cyc>* rec) {
    typename D::In in{};
    typename D::Out o{};
    bool irq = code & 1, ack = code & 2, rst = code & 4, en = !(code & 8);
    u32 dat = data(n.m, code);
    D::set(in, irq, ack, dat, rst, en);
    D::template step<true>(n.s, in, o);
    cur = &n.s;
    trans++;
    if (rec) {
      Cyc r{};
      D::get(in, r);
      r.adr = D::adr(o); r.dat_w = D::dat_w(o); r.sel = D::sel(o); r.cyc = D::cyc(o); r.stb = D::stb(o); r.we = D::we(o);
      D::extra(o, r.extra);
      rec->push_back(std::move(r));
    }
    if constexpr (MON) {
      if (!keep_lost) return observe(n.m, o, irq, ack, dat, rst);
      Mon m0 = n.m;
      if (observe(n.m, o, irq, ack, dat, rst)) return true;
      if (looking || rst || m0.phase == P_LOST || kind == V_ABORT || kind == V_PROTO || kind == V_HANG || want(kind)) return false;
      kind = V_NONE;
      u8 cy = D::cyc(o), rs = m0.resets;
      memset((void*)&n.m, 0, sizeof n.m);
      n.m.phase = P_LOST; n.m.resets = rs;
      n.m.pcyc = cy; n.m.pack = cy && ack;
      n.m.adr = cy ? D::adr(o) : 0; n.m.sel = cy ? D::sel(o) : 0; n.m.we = cy ? D::we(o) : 0; n.m.datw = cy && D::we(o) ? D::dat_w(o) : 0;
      return true;
    }
    else return follow(n.m, o, ack, rst, en);
  }
  long add(const Node& n, u32 par, u8 code) {
    u64 h = hash_bytes(&n, sizeof n);
    if (nodes.size() * 2 > mask) {
      mask = mask * 4 + 3;
      tab.assign(mask + 1, ~0u);
      for (u32 i = 0; i < nodes.size(); i++) { u64 g = hash_bytes(&nodes[i], sizeof n) & mask; while (tab[g] != ~0u) g = (g + 1) & mask; tab[g] = i; }
    }
    u64 g = h & mask;
    while (tab[g] != ~0u) { if (!memcmp(&nodes[tab[g]], &n, sizeof n)) return -1; g = (g + 1) & mask; }
    tab[g] = nodes.size();
    nodes.push_back(n); parent.push_back(par); via.push_back(code);
    return nodes.size() - 1;
  }
  std::vector<u8> codes(const Mon& m) const {
    std::vector<u8> c;
    bool can = m.pcyc && !m.pack && !m.reset_seen;
    Env env = this->env;
    if (env.calm && m.resets) env.irq = env.wait = env.junk = env.wild = env.dis = false;
    if (env.rst && m.resets >= env.resets && !(MON ? m.phase == P_RST : m.reset_seen)) env.rst = false;
    for (int q = 0; q < (env.irq ? 2 : 1); q++) {
      if (!can || env.wait) for (int j = 0; j < (env.junk ? 2 : 1); j++) c.push_back(q | j << 4);
      if (can) { c.push_back(q | 2); if (is_load(m)) c.push_back(q | 2 | 1 << 4); }
      else if (env.wild) c.push_back(q | 2 | 1 << 4);
    }
    if (env.rst) { c.push_back(4); if (can) c.push_back(4 | 2); if (env.irq) c.push_back(4 | 1 | 1 << 4); }
    if (env.dis) { c.push_back(8); c.push_back(8 | 2 | 1 | 1 << 4); if (env.rst) { c.push_back(8 | 4); c.push_back(8 | 4 | 2 | 1); } }
    return c;
  }
  // true: no (wanted) violation
  bool run() {
    Node n;
    memset(&n, 0, sizeof n);
    D::por(n.s);
    n.m.phase = P_BOOT;
    add(n, 0, 0);
    for (u32 i = 0; i < nodes.size(); i++) {
      expanded = i;
      std::vector<u8> cs = codes(nodes[i].m);
      for (u8 c : cs) {
        memcpy((void*)&n, (void*)&nodes[i], sizeof n);
        kind = V_NONE;
        if (!step(n, c, nullptr)) {
          if (kind != V_ABORT && (!want || want(kind))) { bad_from = i; bad_code = c; return false; }
          continue;   // somebody else's property, or an unjudgeable branch
        }
        add(n, i, c);
      }
      if ((long)nodes.size() > env.cap || g_fix_bytes > FIX_BYTES) { capped = true; break; }
    }
    return true;
  }
  u32 expanded = 0;
  u64 depth(u32 i) const { u64 d = 0; for (; i; i = parent[i]) d++; return d; }
  u32 bad_from = 0; u8 bad_code = 0;
  void trace(u32 i, Trace& t, int last = -1) {
    std::vector<u8> in;
    if (last >= 0) in.push_back(last);
    for (; i; i = parent[i]) in.push_back(via[i]);
    Node n;
    memset(&n, 0, sizeof n);
    D::por(n.s);
    n.m.phase = P_BOOT;
    t.design = D::NAME;
    Kind k0 = kind; std::string w0 = what;
    u32 lastpc = ~0u;
    for (size_t j = in.size(); j-- > 0;) {
      bool ok = step(n, in[j], &t.c);
      if (MON && n.m.phase == P_FETCH && n.m.iss.pc != lastpc) { char b[80]; snprintf(b, sizeof b, "cycle %zu: fetch %08x", t.c.size(), lastpc = n.m.iss.pc); t.notes.push_back(b); }
      if (!ok) { t.notes.push_back(std::string(KIND[kind]) + ": " + what); break; }
    }
    kind = k0; what = w0;
  }
};

// run one program, add its numbers to sh; false: the violation belongs to the
// property and was reported
template <class D, bool MON> bool fixrun(Shared& sh, const Prog& p, Env e, const char* label, std::function<bool(Kind)> want, bool baseline = false, bool keep_lost = false) {
  Fix<D, MON> f(p, e);
  f.want = want; f.keep_lost = keep_lost;
  bool ok = f.run();
  std::lock_guard<std::mutex> g(sh.mu);
  if (baseline) return ok;
  sh.states += f.nodes.size(); sh.transitions += f.trans; sh.ambiguous += f.ambiguous; sh.counters["exception/interrupt resolved by the handler"] += f.forked;
  sh.counters[std::string("states: ") + label + " " + p.name] = f.nodes.size();
  if (f.capped) sh.counters[std::string("complete depth: ") + label + " " + p.name] = f.depth(f.expanded) - 1;
  if (f.capped) sh.counters[std::string("capped: ") + label + " " + p.name] = 1;
  if (!ok) {
    Viol v;
    v.kind = f.kind; v.what = f.what; v.label = std::string(label) + ": program " + p.name;
    f.trace(f.bad_from, v.tr, f.bad_code);
    v.tr.label = v.label;
    sh.viol.push_back(v);
    sh.nviol++;
    return false;
  }
  // traces to replay: spread over the search order, ending with the last state
  u32 n = f.nodes.size();
  for (u32 i : {n - 1, n / 2, n / 5, n / 17}) {
    Trace t;
    t.label = std::string(label) + " " + p.name;
    f.trace(i, t);
    if (sh.sample_cycles < sh.max_sample_cycles) { sh.sample_cycles += t.c.size(); sh.samples.push_back(std::move(t)); }
  }
  return true;
}

// ---------------------------------------------------------------- programs
struct Asm {
  Prog p;
  void o(u32 w) { p.w.push_back(w); }
  u32 here() const { return p.w.size() * 4; }
  // prologue: vector, enables; the handler is at 0x80
  void start(const char* name, bool mie = true, bool mst = true) {
    p.name = name;
    o(I(0x80, 0, 0, 20)); o(CSR(MTVEC, 20, 1, 0));
    o(I(1, 0, 0, 21)); o(I(11, 21, 1, 21)); o(CSR(MIE_, mie ? 21 : 0, 1, 0));
    o(I(0, 0, 0, 5)); o(I(3, 0, 0, 1)); o(I(-7, 0, 0, 2)); o(CSR(MSCRATCH, 2, 1, 0));
    o(CSR(MSTATUS, mst ? 8 : 0, 5, 0));
  }
  void loop(u32 to) { o(J(to - here(), 0)); while (here() < 0x80) o(0); }
  // handler: mcause, mepc and mstatus to memory, skip the instruction if it
  // was a synchronous exception, return
  void handler() {
    o(CSR(MCAUSE, 0, 2, 24)); o(CSR(MEPC, 0, 2, 25)); o(S(0x7F0, 25, 0, 2));
    o(B(12, 0, 24, 4));                 // interrupt: keep mepc
    o(I(4, 25, 0, 25)); o(CSR(MEPC, 25, 1, 0));
    o(S(0x7F4, 24, 0, 2)); o(CSR(MSTATUS, 0, 2, 25)); o(S(0x7F8, 25, 0, 2));
    o(MRET);
  }
};
static inline std::vector<Prog> programs() {
  std::vector<Prog> r;
  { Asm a; a.start("alu"); u32 l = a.here();
    a.o(I(1, 5, 4, 5)); a.o(R(0, 1, 5, 0, 6)); a.o(R(0x20, 5, 2, 0, 7)); a.o(R(0, 6, 7, 2, 8)); a.o(R(0, 7, 6, 3, 9)); a.o(R(0, 8, 6, 6, 10)); a.o(S(0x700, 10, 0, 2)); a.o(R(0, 7, 10, 7, 10)); a.o(S(0x704, 7, 0, 1)); a.o(S(0x708, 5, 0, 0));
    a.loop(l); a.handler(); r.push_back(a.p); }
  { Asm a; a.start("shift"); u32 l = a.here();
    a.o(I(1, 5, 4, 5)); a.o(R(0, 5, 2, 1, 6)); a.o(I(0x402, 2, 5, 7)); a.o(R(0, 1, 6, 5, 8)); a.o(R(0x20, 0, 2, 5, 9)); a.o(I(0, 7, 1, 10)); a.o(S(0x700, 6, 0, 2)); a.o(S(0x704, 7, 0, 2)); a.o(S(0x708, 8, 0, 2)); a.o(S(0x70C, 9, 0, 2)); a.o(S(0x710, 10, 0, 2));
    a.loop(l); a.handler(); r.push_back(a.p); }
  { Asm a; a.start("memory"); u32 l = a.here();
    a.o(I(1, 5, 4, 5)); a.o(I(0x7E0, 0, 2, 6, 3)); a.o(S(0x700, 6, 0, 2)); a.o(I(0x7E3, 0, 0, 7, 3)); a.o(S(0x705, 7, 0, 0)); a.o(I(0x7E2, 0, 5, 8, 3)); a.o(S(0x706, 8, 0, 1)); a.o(I(0x7E4, 0, 2, 0, 3)); a.o(S(0x708, 0, 0, 2)); a.o(S(0x70C, 5, 0, 2));
    a.loop(l); a.handler(); r.push_back(a.p); }
  { Asm a; a.start("flow"); u32 l = a.here();
    a.o(I(1, 5, 4, 5)); a.o(B(12, 0, 5, 0)); a.o(J(8, 6)); a.o(0); a.o(S(0x700, 6, 0, 2)); a.o(B(8, 1, 2, 4)); a.o(0); a.o(U(0, 7, 0x17)); a.o(I(13, 7, 0, 8, 0x67)); a.o(0); a.o(B(8, 2, 1, 5)); a.o(0); a.o(S(0x704, 8, 0, 2)); a.o(B(8, 1, 2, 6)); a.o(S(0x708, 5, 0, 2));
    a.loop(l); a.handler(); r.push_back(a.p); }
  { Asm a; a.start("csr"); u32 l = a.here();
    a.o(I(1, 5, 4, 5)); a.o(CSR(MSCRATCH, 5, 1, 6)); a.o(CSR(MSTATUS, 8, 7, 7)); a.o(CSR(MSCRATCH, 9, 6, 8)); a.o(CSR(MSTATUS, 8, 6, 9)); a.o(CSR(MIE_, 21, 3, 10)); a.o(S(0x700, 6, 0, 2)); a.o(CSR(MIE_, 21, 2, 11)); a.o(S(0x704, 7, 0, 2)); a.o(S(0x708, 9, 0, 2)); a.o(CSR(0xF11, 0, 2, 12)); a.o(S(0x70C, 11, 0, 2));
    a.loop(l); a.handler(); r.push_back(a.p); }
  { Asm a; a.start("traps"); u32 l = a.here();
    a.o(I(1, 5, 4, 5)); a.o(ECALL); a.o(S(0x700, 5, 0, 2)); a.o(0); a.o(I(0x7E1, 0, 2, 6, 3)); a.o(S(0x703, 5, 0, 1)); a.o(EBREAK); a.o(B(6, 0, 0, 0)); a.o(I(0x7E0, 0, 2, 6, 3)); a.o(CSR(0xF14, 5, 1, 6)); a.o(S(0x704, 6, 0, 2));
    a.loop(l); a.handler(); r.push_back(a.p); }
  { Asm a; a.start("nest"); u32 l = a.here();  // handler re-enables interrupts one level deep
    a.o(I(1, 5, 4, 5)); a.o(S(0x700, 5, 0, 2)); a.o(ECALL); a.o(CSR(MSTATUS, 0, 2, 6)); a.o(S(0x704, 6, 0, 2));
    a.loop(l);
    a.o(CSR(MCAUSE, 0, 2, 24)); a.o(CSR(MEPC, 0, 2, 25)); a.o(S(0x7F0, 25, 0, 2)); a.o(B(8, 0, 24, 4)); a.o(I(4, 25, 0, 25));
    a.o(CSR(MSTATUS, 0, 2, 26)); a.o(S(0x7F4, 26, 0, 2));
    a.o(I(0x100, 0, 0, 27)); a.o(CSR(MTVEC, 27, 1, 0)); a.o(CSR(MSTATUS, 8, 6, 0)); a.o(NOP); a.o(CSR(MSTATUS, 8, 7, 0)); a.o(CSR(MTVEC, 20, 1, 0));
    a.o(CSR(MSTATUS, 26, 1, 0)); a.o(CSR(MEPC, 25, 1, 0)); a.o(MRET);
    while (a.here() < 0x100) a.o(0);
    a.o(CSR(MEPC, 0, 2, 28)); a.o(S(0x7F8, 28, 0, 2)); a.o(CSR(MCAUSE, 0, 2, 28)); a.o(S(0x7FC, 28, 0, 2)); a.o(MRET);
    r.push_back(a.p); }
  { Asm a; a.start("misc"); u32 l = a.here();
    a.o(I(1, 5, 4, 5)); a.o(U(0x89ABC, 6, 0x37)); a.o(U(1, 7, 0x17)); a.o(FENCE); a.o(WFI); a.o(U(0xFFFFF, 0, 0x37)); a.o(I(0x7E0, 0, 2, 0, 3)); a.o(R(0, 6, 0, 0, 8)); a.o(S(0x700, 8, 0, 2)); a.o(S(0x704, 7, 0, 2)); a.o(S(0x708, 0, 0, 2)); a.o(CSR(MCAUSE, 5, 1, 9)); a.o(CSR(MEPC, 6, 1, 10)); a.o(S(0x70C, 5, 0, 2));
    a.loop(l); a.handler(); r.push_back(a.p); }
  { Asm a; a.start("masked", false, true); u32 l = a.here();   // interrupts never enabled
    a.o(I(1, 5, 4, 5)); a.o(S(0x700, 5, 0, 2)); a.o(R(0, 1, 5, 1, 6)); a.o(I(0x7E0, 0, 1, 7, 3)); a.o(CSR(MSTATUS, 8, 7, 8)); a.o(CSR(MIE_, 21, 2, 9)); a.o(S(0x704, 6, 0, 2)); a.o(CSR(MIE_, 21, 3, 9)); a.o(CSR(MSTATUS, 8, 6, 8)); a.o(ECALL);
    a.loop(l); a.handler(); r.push_back(a.p); }
  return r;
}
