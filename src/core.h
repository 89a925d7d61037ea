// Lockstep exploration core: the design's transition relation (dut.h, produced
// from the netlist by nir2cpp.py) against the ISS, through the bus only.
#pragma once
#include "iss.h"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <memory>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>

// ---------------------------------------------------------------- bus record
struct Cyc {  // one clock cycle as seen at the design's ports
  u32 dat_r; u8 ack, irq, rst, en;
  u32 adr, dat_w; u8 sel, cyc, stb, we;
  std::vector<u64> extra;  // other outputs of the design, in declaration order
};
struct Trace { std::string design, label; std::vector<Cyc> c; std::vector<std::string> notes; };

// ---------------------------------------------------------------- violations
enum Kind { V_NONE, V_NEXT, V_MEM, V_HANG, V_PROTO, V_IRQ, V_RESET, V_TIME, V_EXTRA, V_ABORT };
static const char* const KIND[] = {"none", "next-fetch", "memory-access", "no-progress", "bus-protocol", "interrupt", "reset", "cycle-count", "extra", "abort"};

// ---------------------------------------------------------------- steps
// One step = one instruction fed to the pending fetch, with everything the
// environment decides while it runs.
struct Step {
  u32 word = 0x13;
  u32 rdata = 0;       // word returned if the instruction loads
  u32 fd = 1, md = 1;  // cycles the fetch / data request is seen before its ack
  u8 junk = 0;         // what dat_r carries when there is no ack
  u8 irq0 = 0;         // interrupt line outside [ion, ioff)
  u16 ion = 0, ioff = 0;  // line is !irq0 in step cycles [ion, ioff)
  u64 imask = 0;       // xor-ed pattern for the first 64 cycles
  u16 rst_at = 0;      // !=0: assert reset after this many cycles of the step
  u32 rst_n = 1;       // for this many cycles
  u8 rst_ack = 0;      // during reset: 0 no ack, 1 ack constantly, 2 only first
  u64 stall = 0;       // (clock-enable variant) bit k: disabled cycles before cycle k
  u8 stall_n = 1;
  u8 raw = 0;          // only clock the design, acknowledging with this word
};

// idle-bus patterns 0..7: constants and variations of the instruction word;
// 8..: whole instructions that would matter if they were ever taken
static const u32 JUNK_INSNS[] = {
    0xF1102073,  // csrr x0,mvendorid
    0x302021F3,  // csrr x3,medeleg (illegal)
    0x340090F3,  // csrrw x1,mscratch,x1
    0x0030A1A3,  // sw x3,3(x1)
    0x00108063,  // beq x1,x1,0
    0x0000006F,  // jal x0,0
    0x00008067,  // jalr x0,0(x1)
    0x00000000,  // illegal
    0x00000073,  // ecall
    0x30200073,  // mret
    0x40315133,  // sra x2,x2,x3
    0x00311113,  // slli x2,x2,3
    0x00412103,  // lw x2,4(x2)
    0x0000000F,  // fence
    0xABCDE117,  // auipc x2
    0x344FF0F3,  // csrrci x1,mip,31
};
enum { N_JUNK = 8 + sizeof JUNK_INSNS / sizeof *JUNK_INSNS };
static inline u32 junk_word(u8 j, u32 w) {
  if (j >= 8) return JUNK_INSNS[(j - 8) % (N_JUNK - 8)];
  switch (j) {
    case 0: return 0;
    case 1: return 0xFFFFFFFFu;
    case 2: return 0xFFFF8F93u;  // addi x31,x31,-1
    case 3: return ~w;
    default: return w ^ (0x00000080u << (j & 7));
  }
}

template <class D> struct Ctx {
  typename D::State s;
  Iss iss;
  typename D::Out o;      // outputs of the last clocked cycle
  u8 pcyc, pack;          // last cycle: request, acked
  u8 reset_seen;
  u32 depth;              // steps on the path
  u32 xknown;             // registers with an architecturally known value
  typename D::Aux aux;    // state of a property-specific monitor
};
struct NoAux {};

// distinct design states seen at instruction boundaries: a fingerprint bitmap,
// so the count is a lower bound
struct Seen {
  static constexpr u64 BITS = 1ull << 31;
  std::atomic<u64>* w;
  Seen() { w = (std::atomic<u64>*)calloc(BITS / 64, 8); }
  ~Seen() { free((void*)w); }
  bool add(u64 h) {
    h &= BITS - 1;
    u64 m = 1ull << (h & 63);
    std::atomic<u64>& x = w[h >> 6];
    if (x.load(std::memory_order_relaxed) & m) return false;
    return !(x.fetch_or(m, std::memory_order_relaxed) & m);
  }
};
static inline u64 hash_bytes(const void* p, size_t n, u64 h = 0x9E3779B97F4A7C15ull) {
  const u8* b = (const u8*)p;
  while (n >= 8) { u64 v; memcpy(&v, b, 8); h = (h ^ v) * 0xD6E8FEB86659FD93ull; h ^= h >> 32; b += 8; n -= 8; }
  u64 v = 0; memcpy(&v, b, n); h = (h ^ v) * 0xD6E8FEB86659FD93ull; h ^= h >> 29; h *= 0x94D049BB133111EBull; return h ^ (h >> 31);
}

struct Viol { Kind kind; std::string what; std::string label; std::vector<Step> path; Trace tr; };

struct Shared {
  std::mutex mu;
  Seen seen;
  std::vector<Viol> viol;
  std::atomic<int> nviol{0};
  std::atomic<long> next{0};
  std::vector<Trace> samples;
  std::map<std::string, int> nsamp;
  std::set<std::string> outcomes;
  u64 transitions = 0, states = 0, steps = 0, leaves = 0, ambiguous = 0;
  long maxdepth = 0;
  int nthreads = 8;
  int max_viol = 12;
  int max_samples = 240;
  long max_sample_cycles = 120000;
  long sample_cycles = 0;
  std::map<std::string, u64> counters;
};

template <class D> struct Worker {
  typedef Ctx<D> C;
  Shared* sh;
  std::vector<Step> path;
  u64 cycles = 0, steps = 0, leaves = 0, ambiguous = 0, fresh = 0;
  std::map<std::string, u64> counters;
  std::set<u64> outc;
  Trace* rec = nullptr;
  bool proto = false;     // protocol monitor is part of the property
  bool drift = false;     // keep monitoring the bus after the lockstep is lost
  int limit = 140;        // cycles without a request = no progress
  Kind kind = V_NONE;
  std::string what;
  const Step* st = nullptr;
  unsigned k = 0;         // cycle index within the step
  bool hi, lo;            // interrupt line constant over the window so far
  bool window = false;
  u16 budget = 0;         // 0 = unlimited
  bool out_of_budget = false;
  unsigned last_cycles = 0, resets = 0;
  std::function<bool(C&, const typename D::In&, const typename D::Out&)> tap;  // per-cycle observer

  bool fail(Kind kd, const char* f, ...) __attribute__((format(printf, 3, 4))) {
    if (kind != V_NONE) return false;
    char b[400];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    kind = kd; what = b;
    return false;
  }

  // called when an instruction is over: state before, what it did, whether an
  // interrupt replaced it
  std::function<bool(C&, const Iss&, const Step&, const Eff&, bool)> retired;

  // ---- one clock cycle
  bool cycle(C& c, bool irq, bool ack, u32 dat, bool rst = false) {
    typename D::In in{};
    if constexpr (D::HAS_EN) {
      if (st && !rst && ((st->stall >> (k < 63 ? k : 63)) & 1)) {
        for (int j = 0; j < st->stall_n; j++) {
          D::set(in, !irq, true, junk_word(st->junk ^ 1, dat), false, false);
          D::template step<true>(c.s, in, c.o);
          cycles++;
          note(c, in);
          if (tap && !tap(c, in, c.o)) return false;
        }
      }
    }
    D::set(in, irq, ack, dat, rst, true);
    u32 oadr = D::adr(c.o), odat = D::dat_w(c.o);
    u8 osel = D::sel(c.o), owe = D::we(c.o);
    D::template step<true>(c.s, in, c.o);
    cycles++;
    k++;
    if (rec) note(c, in);
    u8 cy = D::cyc(c.o);
    if (proto) {
      if (cy != D::stb(c.o)) return fail(V_PROTO, "cyc=%d but stb=%d", cy, D::stb(c.o));
      if (!rst && !c.reset_seen && c.pcyc) {
        if (c.pack) {
          if (cy) return fail(V_PROTO, "cyc/stb still asserted in the cycle after ack");
        } else {
          if (!cy) return fail(V_PROTO, "request withdrawn before ack");
          if (D::adr(c.o) != oadr || D::we(c.o) != owe || D::sel(c.o) != osel)
            return fail(V_PROTO, "adr/we/sel changed while waiting for ack: adr %08x->%08x we %d->%d sel %x->%x", oadr, D::adr(c.o), owe, D::we(c.o), osel, D::sel(c.o));
          if (owe) {
            u32 m = lanes(osel);
            if ((D::dat_w(c.o) ^ odat) & m) return fail(V_PROTO, "write data changed while waiting for ack");
          }
        }
      }
    }
    c.pcyc = cy; c.pack = cy && ack;
    c.reset_seen = rst;
    if (tap && !tap(c, in, c.o)) return false;
    return true;
  }
  static u32 lanes(u8 s) { return (s & 1 ? 0xFFu : 0) | (s & 2 ? 0xFF00u : 0) | (s & 4 ? 0xFF0000u : 0) | (s & 8 ? 0xFF000000u : 0); }

  void note(C& c, const typename D::In& in) {
    if (!rec) return;
    Cyc r{};
    D::get(in, r);
    r.adr = D::adr(c.o); r.dat_w = D::dat_w(c.o); r.sel = D::sel(c.o); r.cyc = D::cyc(c.o); r.stb = D::stb(c.o); r.we = D::we(c.o);
    D::extra(c.o, r.extra);
    rec->c.push_back(std::move(r));
  }

  bool irq_level() const {
    bool v = st->irq0;
    if (k >= st->ion && k < st->ioff) v = !v;
    if (k < 64 && ((st->imask >> k) & 1)) v = !v;
    return v;
  }
  // clock with the step's interrupt pattern
  bool tick(C& c, bool ack, u32 dat) {
    if (budget && k >= budget) { out_of_budget = true; return false; }
    bool q = irq_level();
    if (window) { if (q) lo = false; else hi = false; }
    return cycle(c, q, ack, dat);
  }
  // to the first cycle of the next request
  bool next_req(C& c, u32 jw) {
    for (int n = 0; n < limit; n++) {
      if (!tick(c, false, jw)) return false;
      if (D::cyc(c.o)) return true;
    }
    return fail(V_HANG, "no bus request for %d cycles", limit);
  }
  bool serve(C& c, unsigned d, u32 data, u32 jw) {
    for (unsigned i = 1; i < d; i++) if (!tick(c, false, jw)) return false;
    return tick(c, true, data);
  }

  // does this copy read back its mcause and mepc?
  bool tells(C c) {
    Worker<D> w;
    w.sh = sh; w.limit = limit; w.rec = nullptr; w.quiet = true;
    c.depth = 0;
    return w.probe_csr(c, 0x342) && w.probe_csr(c, 0x341);
  }
  bool quiet = false;
  // ---- one instruction in lockstep
  bool exec(C& c, const Step& s) {
    if (path.size() < c.depth) abort();
    path.resize(c.depth); path.push_back(s); c.depth++;
    steps++;
    st = &s; k = 0; budget = s.rst_at; out_of_budget = false; resets = 0;
    bool ok = exec_(c, s);
    last_cycles = k;
    if (!ok && drift && kind != V_NONE && kind != V_PROTO && kind != V_HANG) lost(c, s);
    if (!rec && !quiet && sh->seen.add(hash_bytes(&c.s, sizeof c.s))) fresh++;
    if (!ok && out_of_budget && kind == V_NONE) ok = do_reset(c, s);
    st = nullptr;
    return ok;
  }
  // the machine is somewhere the ISS is not: serve whatever it asks for, with
  // the bus monitors still on
  void lost(C& c, const Step& s) {
    Kind k0 = kind;
    std::string w0 = what;
    kind = V_NONE;
    u32 jw = junk_word(s.junk, s.word);
    bool ok = true;
    for (int r = 0; ok && r < 4; r++) {
      int n = 0;
      while (ok && !(c.pcyc && !c.pack)) {
        ok = cycle(c, s.irq0, false, jw);
        if (ok && ++n > limit) ok = fail(V_HANG, "no bus request for %d cycles", limit);
      }
      for (u32 i = 0; ok && i < 3; i++) ok = cycle(c, s.irq0, i == 2, i == 2 ? 0x13 : jw);
    }
    if (kind == V_NONE) { kind = k0; what = w0; }
    else what += " (after: " + w0 + ")";
  }
  bool is_fetch(C& c, u32 pc) { return D::cyc(c.o) && !D::we(c.o) && D::sel(c.o) == 15 && D::adr(c.o) == pc >> 2; }
  bool exec_(C& c, const Step& s) {
    u32 jw = junk_word(s.junk, s.word);
    if (s.raw) {
      for (int i = 0; i < s.raw; i++) if (!tick(c, c.pcyc && !c.pack, s.word)) return false;
      return true;
    }
    if (!is_fetch(c, c.iss.pc))
      return fail(V_NEXT, "expected fetch of %08x, bus shows %s adr=%08x sel=%x", c.iss.pc, D::we(c.o) ? "write" : "read", D::adr(c.o) << 2, D::sel(c.o));
    hi = lo = true; window = true;
    if (!serve(c, s.fd, s.word, jw)) { window = false; return false; }
    if (!next_req(c, jw)) { window = false; return false; }
    window = false;
    // the cycle that carried the new request is outside the window; it cannot
    // make a constant line look constant when it was not, so undo is not needed
    Iss post = c.iss;
    Eff e = iss_step(post, s.word, s.rdata, hi);
    bool en = (c.iss.mstatus & MIE_BIT) && (c.iss.mie & MEI_BIT);
    bool m_no = e.mem ? (D::we(c.o) == e.we && D::adr(c.o) == e.adr && D::sel(c.o) == e.sel) : is_fetch(c, post.pc);
    bool m_int = is_fetch(c, c.iss.mtvec);
    bool must = en && hi, can = en && !lo;
    bool took;
    if (must) {
      if (!m_int) return fail(V_IRQ, "interrupt pending and enabled at pc %08x but not taken; bus shows %s adr=%08x", c.iss.pc, D::we(c.o) ? "write" : "read", D::adr(c.o) << 2);
      took = true;
    } else if (can && m_int && m_no) {
      // a synchronous exception or the interrupt: mcause tells
      C a = c, b = c;
      a.iss = post; iss_trap(b.iss, 0x8000000Bu);
      ambiguous++;
      if (tells(a)) took = false;
      else if (tells(b)) took = true;
      else return fail(V_IRQ, "neither the exception of %08x at %08x nor an interrupt explains mcause", s.word, c.iss.pc);
    } else if (can && m_int) took = true;
    else {
      took = false;
      if (!m_no) {
        if (m_int && !e.trap)
          return fail(en ? V_IRQ : V_NEXT, "trap taken at pc %08x word %08x although %s", c.iss.pc, s.word, en ? "the interrupt line was low" : "nothing traps there");
        if (e.mem)
          return fail(V_MEM, "pc %08x word %08x: expected %s adr=%08x sel=%x, bus shows %s adr=%08x sel=%x", c.iss.pc, s.word, e.we ? "write" : "read", e.adr << 2, e.sel,
                      D::we(c.o) ? "write" : "read", D::adr(c.o) << 2, D::sel(c.o));
        return fail(V_NEXT, "pc %08x word %08x: expected next fetch %08x, bus shows %s adr=%08x sel=%x", c.iss.pc, s.word, post.pc, D::we(c.o) ? "write" : "read", D::adr(c.o) << 2, D::sel(c.o));
      }
      if (e.mip_read && !hi && !lo) { ambiguous++; return fail(V_ABORT, "ambiguous"); }
    }
    if (took) {
      Iss pre = c.iss;
      iss_trap(c.iss, 0x8000000Bu);
      return !retired || retired(c, pre, s, e, true);
    }
    if (e.mem) {
      if (e.we) {
        u32 m = lanes(e.sel);
        if ((D::dat_w(c.o) ^ e.wdata) & m)
          return fail(V_MEM, "pc %08x word %08x: store of %08x expected on lanes %x, bus has %08x", c.iss.pc, s.word, e.wdata & m, e.sel, D::dat_w(c.o) & m);
      }
      if (!serve(c, s.md, s.rdata, jw)) return false;
      if (!next_req(c, jw)) return false;
      if (!is_fetch(c, post.pc))
        return fail(V_NEXT, "pc %08x word %08x: expected next fetch %08x after the access, bus shows %s adr=%08x sel=%x", c.iss.pc, s.word, post.pc, D::we(c.o) ? "write" : "read", D::adr(c.o) << 2, D::sel(c.o));
    }
    if (retired) {
      Iss pre = c.iss;
      c.iss = post;
      return retired(c, pre, s, e, false);
    }
    c.iss = post;
    return true;
  }

  // ---- reset: from wherever the design is
  bool do_reset(C& c, const Step& s) {
    kind = V_NONE; out_of_budget = false; budget = 0; resets++;
    u32 jw = junk_word(s.junk, s.word);
    for (unsigned i = 0; i < s.rst_n; i++) {
      bool ack = s.rst_ack == 1 || (s.rst_ack == 2 && i == 0) || (s.rst_ack == 3 && i == 0 && c.pcyc && !c.pack);
      if (!cycle(c, irq_level(), ack, s.word, true)) return false;
      if (i > 0 && (D::cyc(c.o) || D::stb(c.o))) return fail(V_RESET, "bus request during reset, %u cycles after it was asserted", i);
    }
    return boot(c, jw, s.rst_ack == 1);
  }
  bool boot(C& c, u32 jw, bool) {
    bool first = true;
    int n = 0;
    for (;;) {
      if (!tick_free(c, jw)) return false;
      if (D::cyc(c.o) || D::stb(c.o)) {
        if (first) return fail(V_RESET, "bus request in the first cycle after reset");
        break;
      }
      first = false;
      if (++n > limit) return fail(V_HANG, "no fetch after reset");
    }
    after_reset(c);
    if (!is_fetch(c, 0)) return fail(V_RESET, "first request after reset is %s adr=%08x sel=%x", D::we(c.o) ? "write" : "read", D::adr(c.o) << 2, D::sel(c.o));
    return true;
  }
  bool tick_free(C& c, u32 jw) { return cycle(c, st ? irq_level() : false, false, jw); }
  void after_reset(C& c) {
    u32 keep_tvec = c.iss.mtvec;
    memset(&c.iss, 0, sizeof c.iss);
    c.iss.mtvec = keep_tvec;
    c.xknown = 1;
  }

  // ---- power-on
  bool por(C& c) {
    memset(&c, 0, sizeof c);
    D::por(c.s);
    path.clear(); c.depth = 0;
    Step dummy; st = &dummy; k = 0; budget = 0;
    bool ok = boot_por(c);
    st = nullptr;
    return ok;
  }
  bool boot_por(C& c) {
    for (int n = 0;; n++) {
      if (!cycle(c, false, false, 0)) return false;
      if (D::cyc(c.o)) break;
      if (n > limit) return fail(V_HANG, "no fetch after power-on");
    }
    after_reset(c);
    if (!is_fetch(c, 0)) return fail(V_RESET, "first request after power-on is adr=%08x", D::adr(c.o) << 2);
    return true;
  }

  // ---- violation bookkeeping
  // Called after a failed exec/probe. Re-runs the path from power-on with
  // recording, so that the report is a complete cycle trace.
  bool report(const char* label) {
    if (kind == V_ABORT || kind == V_NONE) { kind = V_NONE; return true; }
    Viol v;
    v.kind = kind; v.what = what; v.label = label; v.path = path;
    int n = sh->nviol.fetch_add(1);
    if (n < sh->max_viol) {
      record(v.path, v.tr, label);
      std::lock_guard<std::mutex> g(sh->mu);
      sh->viol.push_back(v);
    }
    kind = V_NONE;
    return sh->nviol < sh->max_viol;
  }
  bool record(const std::vector<Step>& p, Trace& t, const char* label) {
    Worker<D> w;
    w.sh = sh; w.rec = &t; w.proto = proto; w.drift = drift; w.limit = limit; w.tap = tap; w.retired = retired;
    t.label = label; t.design = D::NAME;
    C c;
    bool ok = w.por(c);
    for (size_t i = 0; ok && i < p.size(); i++) {
      char b[200];
      snprintf(b, sizeof b, "cycle %zu: pc=%08x word=%08x%s", t.c.size(), c.iss.pc, p[i].word, p[i].rst_at ? " (reset)" : "");
      t.notes.push_back(b);
      ok = w.exec(c, p[i]);
    }
    if (!ok) t.notes.push_back(std::string(KIND[w.kind]) + ": " + w.what);
    return ok;
  }
  // A leaf that passed: maybe keep its trace for the conformance replay.
  void leaf(const char* label) {
    leaves++;
    if ((leaves & (leaves - 1)) && leaves % 65537) return;  // powers of two and every 65537th
    {
      std::lock_guard<std::mutex> g(sh->mu);
      if ((int)sh->samples.size() >= sh->max_samples || sh->sample_cycles > sh->max_sample_cycles) return;
      if (++sh->nsamp[label] > 40) return;
    }
    Trace t;
    if (!record(path, t, label)) return;
    std::lock_guard<std::mutex> g(sh->mu);
    sh->sample_cycles += t.c.size();
    sh->samples.push_back(std::move(t));
  }
  void outcome(u64 h) { if (outc.size() < 100000) outc.insert(h); }

  // ---- saved starting points
  struct Saved { C c; std::vector<Step> path; };
  std::map<u64, Saved> bases;
  // returns a context prepared once per worker by mk; its path becomes current
  bool base(u64 key, C& out, std::function<bool(C&)> mk) {
    auto it = bases.find(key);
    if (it == bases.end()) {
      C c;
      if (!por(c) || !mk(c)) { report("preparation"); return false; }
      it = bases.emplace(key, Saved{c, path}).first;
    }
    out = it->second.c;
    path = it->second.path;
    return true;
  }
  // ---- little assembler + setup helpers
  bool feed(C& c, u32 w) { Step s; s.word = w; return exec(c, s); }
  bool li(C& c, u32 r, u32 v) {
    u32 hi20 = (v + 0x800) & 0xFFFFF000u, lo12 = (v - hi20) & 0xFFF;
    if (!feed(c, hi20 | r << 7 | 0x37)) return false;
    c.xknown |= 1u << r;
    if (lo12) return feed(c, lo12 << 20 | r << 15 | r << 7 | 0x13);
    return true;
  }
  bool csrw(C& c, u32 csr, u32 r) { return feed(c, csr << 20 | r << 15 | 1 << 12 | 0x73); }
  // put a recognisable value in every register and CSR
  bool setup(C& c, u32 tvec = 0x00040400, u32 mst = 0, u32 mie = 0) {
    if (!li(c, 1, tvec) || !csrw(c, 0x305, 1)) return false;
    if (!li(c, 1, 0x5CA7C41D) || !csrw(c, 0x340, 1)) return false;
    if (!li(c, 1, 0x0ABCDEF4) || !csrw(c, 0x341, 1)) return false;
    if (!li(c, 1, 0x01234567) || !csrw(c, 0x342, 1)) return false;
    if (!li(c, 1, mst) || !csrw(c, 0x300, 1)) return false;
    if (!li(c, 1, mie) || !csrw(c, 0x304, 1)) return false;
    for (u32 r = 1; r < 32; r++) if (!li(c, r, 0x9E3779B9u * r + 0x1234567u)) return false;
    return true;
  }
  // ---- probes (on a copy): every visible register through the bus
  bool probe_x(C c, u32 r) { return feed(c, r << 20 | 2 << 12 | 0x23); }
  bool probe_all_x(C c, u32 from = 0) {
    for (u32 r = from; r < 32; r++) if ((c.xknown >> r) & 1) if (!feed(c, r << 20 | 2 << 12 | 0x23)) return false;
    return true;
  }
  bool probe_csr(C& c, u32 csr, u32 tmp = 31) {
    Step s; s.word = csr << 20 | 2 << 12 | tmp << 7 | 0x73;
    if (!exec(c, s)) return false;
    c.xknown |= 1u << tmp;
    return feed(c, tmp << 20 | 2 << 12 | 0x23);
  }
  bool probe_csrs(C c, bool mstatus = true) {
    static const u32 L[] = {0x342, 0x341, 0x300, 0x304, 0x305, 0x340};
    for (u32 n : L) if (n != 0x300 || mstatus) if (!probe_csr(c, n)) return false;
    return true;
  }
  bool probe_all(C& c) { return probe_all_x(c) && probe_csrs(c); }
};

// ---------------------------------------------------------------- parallel map
template <class D> void parallel(Shared& sh, long n, std::function<void(Worker<D>&, long)> f, bool proto = false, int limit = 140, std::function<void(Worker<D>&)> init = nullptr) {
  std::vector<std::thread> th;
  sh.next = 0;
  for (int t = 0; t < sh.nthreads; t++)
    th.emplace_back([&] {
      Worker<D> w;
      w.sh = &sh; w.proto = w.drift = proto; w.limit = limit;
      if (init) init(w);
      for (;;) {
        long i = sh.next.fetch_add(1);
        if (i >= n || sh.nviol >= sh.max_viol) break;
        w.kind = V_NONE;
        f(w, i);
      }
      std::lock_guard<std::mutex> g(sh.mu);
      sh.transitions += w.cycles; sh.states += w.fresh; sh.steps += w.steps; sh.leaves += w.leaves; sh.ambiguous += w.ambiguous;
      for (auto& kv : w.counters) sh.counters[kv.first] += kv.second;
      for (u64 h : w.outc) { char b[20]; snprintf(b, sizeof b, "%llx", (unsigned long long)h); sh.outcomes.insert(b); }
    });
  for (auto& t : th) t.join();
}

// ---------------------------------------------------------------- output
static inline std::string jesc(const std::string& s) {
  std::string r;
  for (char ch : s) { if (ch == '"' || ch == '\\') r += '\\'; if (ch == '\n') r += "\\n"; else r += ch; }
  return r;
}
static inline void put_trace(FILE* f, const Trace& t) {
  fprintf(f, "{\"design\":\"%s\",\"label\":\"%s\",\"notes\":[", t.design.c_str(), jesc(t.label).c_str());
  for (size_t i = 0; i < t.notes.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(t.notes[i]).c_str());
  fprintf(f, "],\"cycles\":[");
  for (size_t i = 0; i < t.c.size(); i++) {
    const Cyc& c = t.c[i];
    fprintf(f, "%s[%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u", i ? "," : "", c.rst, c.en, c.irq, c.ack, c.dat_r, c.cyc, c.stb, c.we, c.adr, c.sel, c.dat_w);
    for (u64 x : c.extra) fprintf(f, ",%llu", (unsigned long long)x);
    fputc(']', f);
  }
  fprintf(f, "]}");
}
static inline void put_result(const char* out, Shared& sh, bool exhaustive, const std::string& bounds) {
  FILE* f = fopen(out, "w");
  fprintf(f, "{\"states\":%llu,\"transitions\":%llu,\"steps\":%llu,\"leaves\":%llu,\"ambiguous\":%llu,\"outcomes\":%zu,\"exhaustive\":%s,\"bounds\":\"%s\",\"counters\":{",
          (unsigned long long)sh.states, (unsigned long long)sh.transitions, (unsigned long long)sh.steps, (unsigned long long)sh.leaves, (unsigned long long)sh.ambiguous, sh.outcomes.size(), exhaustive ? "true" : "false", jesc(bounds).c_str());
  bool first = true;
  for (auto& kv : sh.counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
  fprintf(f, "},\"violations\":[");
  for (size_t i = 0; i < sh.viol.size(); i++) {
    Viol& v = sh.viol[i];
    fprintf(f, "%s{\"kind\":\"%s\",\"what\":\"%s\",\"label\":\"%s\",\"trace\":", i ? "," : "", KIND[v.kind], jesc(v.what).c_str(), jesc(v.label).c_str());
    put_trace(f, v.tr);
    fprintf(f, "}");
  }
  fprintf(f, "],\"samples\":[");
  for (size_t i = 0; i < sh.samples.size(); i++) { if (i) fputc(',', f); put_trace(f, sh.samples[i]); }
  fprintf(f, "]}\n");
  fclose(f);
}
