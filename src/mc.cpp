// Explorers, one per property.  mc <property> <quick|thorough> <out.json>
#include "dut_top.h"
#include "enc.h"
typedef T_top T;
typedef Worker<T> W;
typedef Ctx<T> C;
static int tier;             // 0 quick, 1 thorough
static std::string bounds;
static bool exhaustive = true;
static void bound(const char* f, ...) { char b[500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); bounds += (bounds.empty() ? "" : "; "); bounds += b; }
static u64 H(u64 a, u64 b = 0, u64 c = 0) { u64 h = a * 0x9E3779B97F4A7C15ull ^ b * 0xC2B2AE3D27D4EB4Full ^ c * 0x165667B19E3779F9ull; h ^= h >> 31; h *= 0xD6E8FEB86659FD93ull; return h ^ (h >> 29); }

// common starting point: every register and CSR has its own value, x8 is a
// data pointer, x9 the mie bit, x10 an alternative trap vector
static bool mk_base(W& w, C& c, u32 tvec = 0x00040400, u32 mst = 0, u32 mie = 0) {
  return w.setup(c, tvec, mst, mie) && w.li(c, 8, 0x00001000) && w.li(c, 9, 0x800) && w.li(c, 10, 0x00080800);
}
static bool base0(W& w, C& c) { return w.base(0, c, [&](C& x) { return mk_base(w, x); }); }
static bool goto_pc(W& w, C& c, u32 pc, u32 tmp = 30) { return w.li(c, tmp, pc) && w.feed(c, I(0, tmp, 0, 0, 0x67)); }
static bool ex(W& w, C& c, u32 word, u32 rdata = 0) { Step s; s.word = word; s.rdata = rdata; return w.exec(c, s); }
static Step st_of(const Sym& s) { Step x; x.word = s.word; x.rdata = s.rdata; x.irq0 = s.irq; return x; }
static bool exs(W& w, C& c, const Sym& s) { return w.exec(c, st_of(s)); }
static bool full(W& w, const C& c) { return w.probe_csrs(c) && w.probe_all_x(c); }
// The property's own forms F in every context: after all ordered pairs of
// events, under every idle-bus pattern and short waits with the interrupt line
// moving but masked, at many program counters, and before every event.
using Go = std::function<bool(W&, C&, const Sym&, int)>;
static void long_runs(Shared& sh, const std::vector<Sym>& F, int reps, int walk, const Go& go = nullptr, bool monitor = false);
static void contexts(Shared& sh, const std::vector<Sym>& F) {
  auto a = events();
  auto pv = pcs();
  long n = a.size(), nf = F.size();
  bound("contexts: %ld forms of this property x all ordered pairs of %ld preceding events x interrupts disabled/enabled; x every preceding event x %d idle-bus patterns x waits 1..3 x 1..2 x 4 waveforms of the masked interrupt line; x %zu program counters; x every following event; all registers and CSRs read back", nf, n, (int)N_JUNK, pv.size());
  parallel<T>(sh, n * n * 2, [&](W& w, long i) {
    C c;
    int cfg = i & 1;
    if (!w.base(7001 + cfg, c, [&](C& x) { return mk_base(w, x, 0x00040400, cfg ? MIE_BIT : 0, MEI_BIT); })) return;
    long k = i / 2;
    if (!exs(w, c, a[k / n]) || !exs(w, c, a[k % n])) { w.report("context"); return; }
    if (cfg && !tier && !a[k / n].irq && !a[k % n].irq && k % 3) return;
    for (auto& f : F) {
      C d = c;
      if (exs(w, d, f) && full(w, d)) { w.outcome(H(f.word, d.iss.pc, d.iss.mcause)); w.leaf("context"); }
      else if (!w.report("context")) return;
    }
  });
  parallel<T>(sh, n * N_JUNK, [&](W& w, long i) {
    C c;
    int cfg = i & 1;
    if (!w.base(7003 + cfg, c, [&](C& x) { return mk_base(w, x, 0x00040400, cfg ? MIE_BIT : 0, cfg ? 0 : MEI_BIT); })) return;
    int j = i % N_JUNK;
    Step p = st_of(a[i / N_JUNK]);
    p.junk = j;
    if (!w.exec(c, p)) { w.report("context"); return; }
    for (auto& f : F) for (int fd = 1; fd <= 3; fd++) for (int md = 1; md <= 2; md++) {
      C d = c;
      Step x = st_of(f);
      x.fd = fd; x.md = md; x.junk = j;
      switch ((j + fd + md) & 3) { case 1: x.irq0 = 1; break; case 2: x.imask = 0xAAAAAAAAAAAAAAAAull; break; case 3: x.ion = 2; x.ioff = 9999; break; }
      if (w.exec(d, x) && full(w, d)) w.leaf("context, waits"); else if (!w.report("context, waits")) return;
    }
  });
  parallel<T>(sh, (long)pv.size(), [&](W& w, long i) {
    C c;
    if (!w.base(8000 + i, c, [&](C& x) { return mk_base(w, x) && goto_pc(w, x, pv[i]); })) return;
    for (auto& f : F) {
      C d = c;
      if (exs(w, d, f) && full(w, d)) { w.outcome(H(f.word, d.iss.pc)); w.leaf("context, pc"); } else if (!w.report("context, pc")) return;
    }
  });
  parallel<T>(sh, nf * n, [&](W& w, long i) {
    C c;
    int cfg = i & 1;
    if (!w.base(7001 + cfg, c, [&](C& x) { return mk_base(w, x, 0x00040400, cfg ? MIE_BIT : 0, MEI_BIT); })) return;
    for (int fd = 1; fd <= 2; fd++) for (int md = 1; md <= 2; md++) for (int j = 0; j < N_JUNK; j += tier ? 1 : 3) {
      C d = c;
      Step x = st_of(F[i / n]), y = st_of(a[i % n]);
      x.fd = fd; x.md = md; x.junk = j; y.fd = md; y.md = fd; y.junk = N_JUNK - 1 - j;
      if (w.exec(d, x) && w.exec(d, y) && full(w, d)) w.leaf("before"); else if (!w.report("before")) return;
    }
  });
  long_runs(sh, F, tier ? 40000 : 3000, tier ? 20000 : 3000);
  // ... and after each event many times in a row
  int top = tier ? 4098 : 258;
  bound("this property's forms after 1..20 and 2^k-1..2^k+1 (up to %d) times each of %ld events in a row", top, n);
  parallel<T>(sh, n, [&](W& w, long i) {
    C c;
    int cfg = i & 1;
    if (!w.base(7001 + cfg, c, [&](C& x) { return mk_base(w, x, 0x00040400, cfg ? MIE_BIT : 0, MEI_BIT); })) return;
    for (int k = 1; k <= top; k++) {
      if (!exs(w, c, a[i])) { w.report("repeated context"); return; }
      bool at = k <= 20;
      for (int p = 32; p <= 4096; p *= 2) at |= k >= p - 1 && k <= p + 1;
      if (!at) continue;
      for (auto& f : F) {
        C d = c;
        u32 rd = (f.word >> 7) & 31, op = f.word & 127;
        bool ok = exs(w, d, f);
        if (ok) ok = tier ? full(w, d) : op == 0x23 || op == 0x63 || w.probe_x(d, rd);
        if (ok) w.leaf("repeated context"); else if (!w.report("repeated context")) return;
      }
    }
  });
}
static std::vector<Sym> forms_of(std::initializer_list<u32> ops) {
  std::vector<Sym> r;
  for (auto& s : alphabet(true, true)) for (u32 o : ops) if ((s.word & 127) == o) r.push_back(s);
  return r;
}
// every word of one opcode that iss_step takes as its own (not illegal)
static void all_words(Shared& sh, std::initializer_list<u32> ops, u32 step = 1) {
  for (u32 op : ops) {
    bound("every legal word of opcode %02x%s over a register file of distinct values", op, step > 1 ? " (every rd, a stride of the other fields)" : "");
    parallel<T>(sh, 4096, [&](W& w, long i) {
      C c;
      if (!base0(w, c)) return;
      for (u32 n = 0; n < 8192; n++) {
        u32 word = ((u32)i << 13 | n) << 7 | op;
        if (step > 1 && (word >> 12) % step) continue;
        Iss t = c.iss;
        u32 rdata = 0x89C4D6E8 ^ word * 0x9E3779B1u;
        Eff e = iss_step(t, word, rdata, 0);
        if (e.trap && e.cause == C_ILLEGAL) continue;
        C d = c;
        Step s; s.word = word; s.rdata = rdata;
        u32 rd = (word >> 7) & 31;
        bool ok = w.exec(d, s);
        if (ok && e.trap) ok = w.probe_csr(d, MCAUSE);
        else if (ok && op != 0x63 && op != 0x23) ok = w.probe_x(d, rd);
        if (ok) w.leaf("word"); else if (!w.report("word")) return;
      }
    });
  }
}
// long deterministic histories: each form of F many times in a row, and walks
// through all events with every stride, the registers read back on the way
static void long_runs(Shared& sh, const std::vector<Sym>& F, int reps, int walk, const Go& go, bool monitor) {
  auto a = events();
  long n = a.size(), nf = F.size();
  bound("each of %ld forms %d times in a row; walks of %d instructions through all %ld events and the forms with %ld different strides, interrupts disabled and enabled", nf, reps, walk, n, n / 2);
  std::atomic<bool> stop{false};
  parallel<T>(sh, nf + n, [&](W& w, long i) {
    C c;
    int cfg = i & 1;
    if (stop || !w.base(7001 + cfg, c, [&](C& x) { return mk_base(w, x, 0x00040400, cfg ? MIE_BIT : 0, MEI_BIT); })) return;
    bool walking = i >= nf;
    int len = walking ? walk : reps;
    if (walk >= 20000 && i % 16 == 1 && len < 140000) len = 140000;
    long stride = 1 + (i - nf) / 2, pos = i;
    for (int k = 0; k < len && !stop; k++) {
      bool ok;
      if (go) ok = go(w, c, !walking ? F[i] : nf && k % 3 == 2 ? F[(k / 3 + i) % nf] : a[pos = (pos + stride) % n], k);
      else if (!walking) ok = exs(w, c, F[i]);
      else {
        pos = (pos + stride) % n;
        // k-th turn: an event, every third turn one of the forms
        ok = exs(w, c, nf && k % 3 == 2 ? F[(k / 3 + i) % nf] : a[pos]);
        if (k % n == n - 1 && pos == 0) stride++;
      }
      if (ok && !go && (k % (walking ? 61 : 499) == 0 || k == len - 1)) { C d = c; ok = full(w, d); }
      if (!ok && w.kind == V_ABORT) { w.report("long run"); return; }
      if (!ok) { if (!stop.exchange(true)) w.report("long run"); return; }
      if (walking && k % 251 == 250) {   // keep the pointers where the forms expect them
        if (!w.li(c, 8, 0x1000) || !w.li(c, 9, 0x800) || !w.li(c, 10, 0x80800)) { if (go) w.kind = V_ABORT; if (!stop.exchange(true)) w.report("long run"); return; }
      }
    }
    w.leaves++;
  }, monitor);
}
#define TRY(e, label) do { if (!(e)) { if (!w.report(label)) return; goto next; } } while (0)

// -------------------------------------------------------------------- C01
static void c01(Shared& sh) {
  std::vector<u32> v = values(tier ? 3 : 2), vi = values(tier ? 2 : 1);
  bound("register-register: %zu^2 structured operand pairs x 10 operations; immediates: %zu values x all 4096 x 6 operations; shift-immediates: %zu values x all 32 amounts x 3; byte-exhaustive 256x256x4 lanes x 10; lui/auipc: all 2^20 immediates; %zu^2 operand pairs x 10 operations x 13 ways for rd, rs1 and rs2 to coincide with each other or x0; %zu values x immediates x rd=rs1, rd=x0", v.size(), vi.size(), v.size(), values(tier ? 1 : 0).size(), v.size());
  auto run1 = [](W& w, C c, u32 word, const char* label) {
    u32 rd = (word >> 7) & 31;
    bool ok = ex(w, c, word);
    if (ok) ok = w.probe_x(c, rd);
    if (ok) { w.outcome(H(c.iss.x[rd])); w.leaf(label); return true; }
    return w.report(label);
  };
  parallel<T>(sh, v.size(), [&](W& w, long i) {
    C c, d;
    if (!base0(w, c)) return;
    if (!w.li(c, 11, v[i])) { w.report("register-register"); return; }
    for (u32 b : v) {
      d = c;
      if (!w.li(d, 12, b)) { if (!w.report("register-register")) return; continue; }
      for (auto& o : OPS) if (!run1(w, d, R(o.f7, 12, 11, o.f3, 13), o.name)) return;
    }
  });
  parallel<T>(sh, vi.size(), [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    if (!w.li(c, 11, vi[i])) { w.report("immediate"); return; }
    for (u32 imm = 0; imm < 4096; imm++) for (auto& o : OPIS) if (!run1(w, c, I(imm, 11, o.f3, 13), o.name)) return;
  });
  parallel<T>(sh, v.size(), [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    if (!w.li(c, 11, v[i])) { w.report("shift-immediate"); return; }
    for (u32 n = 0; n < 32; n++) for (auto& o : SHIS) if (!run1(w, c, I(o.f7 << 5 | n, 11, o.f3, 13), o.name)) return;
  });
  parallel<T>(sh, 4 * 256, [&](W& w, long i) {
    C c, d;
    u32 sft = (i >> 8) * 8;
    if (!base0(w, c)) return;
    if (!w.li(c, 11, (u32)(i & 255) << sft)) { w.report("byte lane"); return; }
    for (u32 b = 0; b < 256; b++) {
      d = c;
      if (!w.li(d, 12, b << sft)) { if (!w.report("byte lane")) return; continue; }
      for (auto& o : OPS) if (!run1(w, d, R(o.f7, 12, 11, o.f3, 13), "byte lane")) return;
    }
  });
  // coinciding registers
  std::vector<u32> va = values(tier ? 1 : 0);
  static const u8 AL[][3] = {{11, 11, 12}, {12, 11, 12}, {13, 11, 11}, {11, 11, 11}, {13, 0, 12}, {13, 11, 0}, {11, 11, 0}, {12, 0, 12}, {0, 11, 12}, {0, 11, 11}, {13, 0, 0}, {11, 0, 11}, {13, 12, 11}};
  parallel<T>(sh, va.size(), [&](W& w, long i) {
    C c, d;
    if (!base0(w, c)) return;
    if (!w.li(c, 11, va[i])) { w.report("aliases"); return; }
    for (u32 b : va) {
      d = c;
      if (!w.li(d, 12, b)) { if (!w.report("aliases")) return; continue; }
      for (auto& p : AL) for (auto& o : OPS) if (!run1(w, d, R(o.f7, p[2], p[1], o.f3, p[0]), "aliases")) return;
    }
  });
  parallel<T>(sh, v.size(), [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    if (!w.li(c, 11, v[i])) { w.report("aliases"); return; }
    for (u32 rd : {0, 11}) {
      for (auto& o : OPIS) for (u32 k : {0u, 1u, 0x7FFu, 0x800u, 0xFFFu, 0x555u, 0xAAAu}) if (!run1(w, c, I(k, 11, o.f3, rd), "aliases")) return;
      for (auto& o : SHIS) for (u32 k = 0; k < 32; k++) if (!run1(w, c, I(o.f7 << 5 | k, 11, o.f3, rd), "aliases")) return;
    }
  });
  std::vector<Sym> F;
  for (auto& f : forms_of({0x33, 0x13, 0x37, 0x17})) if (f.word != R(1, 2, 1, 0, 3)) F.push_back(f);
  contexts(sh, F);
  all_words(sh, {0x33, 0x13});
  if (tier) all_words(sh, {0x37, 0x17}); else all_words(sh, {0x37, 0x17}, 16);
  static const u32 PC[] = {0x100, 0x7FFFFFFC, 0x80000000, 0xFFFFF000, 0xFFFFFFFC, 0x12345678, 0x55555554, 0xAAAAAAA8};
  parallel<T>(sh, 8 * 256, [&](W& w, long i) {
    C c;
    u32 pc = PC[i >> 8];
    if (!w.base(1 + (i >> 8), c, [&](C& x) { return mk_base(w, x) && goto_pc(w, x, pc); })) return;
    for (u32 n = 0; n < 4096; n++) {
      u32 imm = (u32)(i & 255) << 12 | n;
      if (i < 256) if (!run1(w, c, U(imm, 13, 0x37), "lui")) return;
      if (!run1(w, c, U(imm, 13, 0x17), "auipc")) return;
    }
  });
}

// -------------------------------------------------------------------- C02
static const u32 PAT[] = {0x89C4D6E8, 0x12345678, 0xFF00FF00, 0x00FF00FF, 0x80808080, 0x7F7F7F7F, 0x80007FFF, 0x7FFF8000};
static bool load1(W& w, C c, u32 word, u32 data, const char* label, u8 fd = 1, u8 md = 1, u8 junk = 0, bool csr = false) {
  u32 rd = (word >> 7) & 31;
  Step s; s.word = word; s.rdata = data; s.fd = fd; s.md = md; s.junk = junk;
  u32 mepc0 = c.iss.mepc; (void)mepc0;
  bool ok = w.exec(c, s);
  if (ok) ok = w.probe_x(c, rd);
  if (ok && csr) ok = w.probe_csrs(c);
  if (ok) { w.outcome(H(c.iss.x[rd], c.iss.pc)); w.leaf(label); return true; }
  return w.report(label);
}
static void c02(Shared& sh) {
  std::vector<u32> v = values(tier ? 3 : 2);
  bound("5 loads x all 4096 offsets x %zu base addresses (aligned and misaligned); extension: all 2^16 half-words and 2^8 bytes on every lane; all 32x32 rd/rs1 pairs; fetch and data waits 1..%d x 8 idle-bus patterns", v.size(), tier ? 12 : 6);
  parallel<T>(sh, v.size(), [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    if (!w.li(c, 11, v[i])) { w.report("address"); return; }
    for (u32 imm = 0; imm < 4096; imm++) for (auto& o : LOADS) if (!load1(w, c, I(imm, 11, o.f3, 13, 3), PAT[imm & 7] ^ imm * 0x9E3779B1u, o.name)) return;
  });
  parallel<T>(sh, 256, [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    for (u32 lo = 0; lo < 256; lo++) for (u32 off = 0; off < 4; off++) for (auto& o : LOADS) {
      u32 h = (u32)i << 8 | lo;
      if (!load1(w, c, I(off, 8, o.f3, 13, 3), h | (h ^ 0xFFFF) << 16, "extension")) return;
      if (!load1(w, c, I(off, 8, o.f3, 13, 3), (h ^ 0xA5A5) | h << 16, "extension")) return;
    }
  });
  parallel<T>(sh, 32 * 32, [&](W& w, long i) {
    C c;
    u32 rs1 = i >> 5, rd = i & 31;
    if (!base0(w, c)) return;
    for (u32 k = 0; k < 8; k++) for (auto& o : LOADS) if (!load1(w, c, I(k, rs1, o.f3, rd, 3), PAT[k], "register pair", 1, 1, 0, true)) return;
  });
  int n = tier ? 12 : 6;
  parallel<T>(sh, n * n, [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    for (u32 j = 0; j < 8; j++) for (u32 k = 0; k < 8; k++) for (auto& o : LOADS) if (!load1(w, c, I(k, 8, o.f3, 13, 3), PAT[k], "waits", 1 + i / n, 1 + i % n, j)) return;
  });
  std::vector<Sym> F = forms_of({0x03});
  for (auto& o : LOADS) for (u32 k = 0; k < 4; k++) F.push_back({I(k, 8, o.f3, 3, 3), "", PAT[k]});
  F.push_back({I(0, 8, 2, 8, 3), "", PAT[0]});
  contexts(sh, F);
  all_words(sh, {0x03});
}

// -------------------------------------------------------------------- C03
static void c03(Shared& sh) {
  std::vector<u32> v = values(tier ? 3 : 2), dv = values(tier ? 3 : 2);
  bound("3 stores x all 4096 offsets x %zu base addresses (aligned and misaligned); data: %zu values and all 2^16 low halves x 4 alignments; all 32x32 rs1/rs2 pairs; fetch and data waits 1..%d x 8 idle-bus patterns", v.size(), dv.size(), tier ? 12 : 6);
  auto st1 = [](W& w, C c, u32 word, const char* label, bool all = false, u8 fd = 1, u8 md = 1, u8 junk = 0) {
    Step s; s.word = word; s.fd = fd; s.md = md; s.junk = junk; s.rdata = 0xDEADBEEF;
    bool ok = w.exec(c, s) && w.feed(c, NOP);
    if (ok && all) ok = w.probe_csrs(c) && w.probe_all_x(c);
    if (ok) { w.outcome(H(word, c.iss.pc)); w.leaf(label); return true; }
    return w.report(label);
  };
  parallel<T>(sh, v.size(), [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    if (!w.li(c, 11, v[i])) { w.report("address"); return; }
    for (u32 imm = 0; imm < 4096; imm++) for (auto& o : STORES) if (!st1(w, c, S(imm, 1 + imm % 31, 11, o.f3), o.name)) return;
  });
  parallel<T>(sh, dv.size(), [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    if (!w.li(c, 11, dv[i])) { w.report("data"); return; }
    for (u32 k = 0; k < 4; k++) for (auto& o : STORES) if (!st1(w, c, S(k, 11, 8, o.f3), "data")) return;
  });
  parallel<T>(sh, 256, [&](W& w, long i) {
    C c, d;
    if (!base0(w, c)) return;
    for (u32 lo = 0; lo < 256; lo++) {
      d = c;
      if (!w.li(d, 11, 0x5A3C0000u | (u32)i << 8 | lo)) { if (!w.report("data")) return; continue; }
      for (u32 k = 0; k < 4; k++) for (auto& o : STORES) if (!st1(w, d, S(k, 11, 8, o.f3), "data")) return;
    }
  });
  parallel<T>(sh, 32 * 32, [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    for (u32 k = 0; k < 4; k++) for (auto& o : STORES) if (!st1(w, c, S(k, i & 31, i >> 5, o.f3), "register pair", true)) return;
  });
  int n = tier ? 12 : 6;
  parallel<T>(sh, n * n, [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    for (u32 j = 0; j < 8; j++) for (u32 k = 0; k < 8; k++) for (auto& o : STORES) if (!st1(w, c, S(k, 11, 8, o.f3), "waits", false, 1 + i / n, 1 + i % n, j)) return;
  });
  std::vector<Sym> F = forms_of({0x23});
  for (auto& o : STORES) for (u32 k = 0; k < 4; k++) F.push_back({S(k, 3, 8, o.f3), ""});
  F.push_back({S(0, 8, 8, 2), ""}); F.push_back({S(0, 0, 8, 0), ""});
  contexts(sh, F);
  all_words(sh, {0x23});
}

// -------------------------------------------------------------------- C04
static const u32 PCS[] = {0x00000000, 0x00000100, 0x00000FFC, 0x7FFFFFFC, 0x80000000, 0xFFFFF000, 0xFFFFFFF8, 0xFFFFFFFC, 0x12345678, 0x55555554, 0xAAAAAAA8, 0x000FFFFC, 0x00100000};
static bool jump1(W& w, C c, u32 word, u32 rd, const char* label) {
  bool ok = ex(w, c, word);
  if (ok && rd) ok = w.probe_x(c, rd);
  u32 mc = c.iss.mcause;
  if (ok && c.iss.pc == c.iss.mtvec) { C d = c; ok = w.probe_csr(d, MCAUSE) && w.probe_csr(d, MEPC); }
  if (ok) { w.outcome(H(c.iss.pc, mc)); w.leaf(label); return true; }
  return w.report(label);
}
static void c04(Shared& sh) {
  std::vector<u32> v = values(tier ? 3 : 2), jb = values(tier ? 3 : 2);
  const int NP = sizeof PCS / sizeof *PCS;
  int njp = tier ? NP : 4;
  bound("6 branches x %zu^2 operand pairs; all 4096 branch offsets x taken/not taken x 6 branches x %d program counters; jal: all 2^20 offsets x %d program counters; jalr: all 4096 offsets x %zu bases; link registers 0..31", v.size(), NP, njp, jb.size());
  parallel<T>(sh, v.size(), [&](W& w, long i) {
    C c, d;
    if (!base0(w, c)) return;
    if (!w.li(c, 11, v[i])) { w.report("operands"); return; }
    for (u32 b : v) {
      d = c;
      if (!w.li(d, 12, b)) { if (!w.report("operands")) return; continue; }
      for (auto& o : BRS) if (!jump1(w, d, B(64, 12, 11, o.f3), 0, o.name)) return;
    }
  });
  parallel<T>(sh, NP * 16, [&](W& w, long i) {
    C c;
    u32 pc = PCS[i >> 4];
    if (!w.base(1 + (i >> 4), c, [&](C& x) { return mk_base(w, x) && w.li(x, 11, 5) && w.li(x, 12, 0xFFFFFFF0) && goto_pc(w, x, pc); })) return;
    for (u32 n = 0; n < 256; n++) {
      u32 off = ((u32)(i & 15) << 8 | n) << 1;
      for (auto& o : BRS) {
        if (!jump1(w, c, B(off, 12, 11, o.f3), 0, "branch offset")) return;
        if (!jump1(w, c, B(off, 11, 12, o.f3), 0, "branch offset")) return;
        if (!jump1(w, c, B(off, 12, 12, o.f3), 0, "branch offset")) return;
      }
    }
  });
  parallel<T>(sh, njp * 256, [&](W& w, long i) {
    C c;
    u32 pc = PCS[(i >> 8) * (tier ? 1 : 3) % NP];
    if (!w.base(101 + (i >> 8), c, [&](C& x) { return mk_base(w, x) && goto_pc(w, x, pc); })) return;
    for (u32 n = 0; n < 4096; n++) {
      u32 imm = (u32)(i & 255) << 12 | n;
      if (!jump1(w, c, U(imm, 13, 0x6F), 13, "jal")) return;
    }
  });
  parallel<T>(sh, jb.size(), [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    if (!w.li(c, 11, jb[i])) { w.report("jalr"); return; }
    for (u32 imm = 0; imm < 4096; imm++) if (!jump1(w, c, I(imm, 11, 0, 13, 0x67), 13, "jalr")) return;
  });
  parallel<T>(sh, 32 * 32, [&](W& w, long i) {
    C c;
    u32 r1 = i >> 5, rd = i & 31;
    if (!base0(w, c)) return;
    for (u32 k = 0; k < 4; k++) if (!jump1(w, c, I(k, r1, 0, rd, 0x67), rd, "jalr registers")) return;
    if (!jump1(w, c, J(64, rd), rd, "jal registers")) return;
    for (auto& o : BRS) if (!jump1(w, c, B(64, rd, r1, o.f3), 0, "branch registers")) return;
  });
  // coinciding registers
  parallel<T>(sh, v.size(), [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    if (!w.li(c, 11, v[i])) { w.report("aliases"); return; }
    for (auto& o : BRS) for (u32 off : {64u, 66u, 4u}) if (!jump1(w, c, B(off, 11, 11, o.f3), 0, "aliases") || !jump1(w, c, B(off, 0, 11, o.f3), 0, "aliases") || !jump1(w, c, B(off, 11, 0, o.f3), 0, "aliases")) return;
    for (u32 off : {0u, 1u, 2u, 3u, 4u, 0x7FCu, 0x7FFu, 0x800u, 0xFFFu}) for (u32 rd : {0, 11}) if (!jump1(w, c, I(off, 11, 0, rd, 0x67), rd, "aliases")) return;
  });
  std::vector<Sym> F = forms_of({0x63, 0x6F, 0x67});
  for (auto& o : BRS) { F.push_back({B(24, 1, 2, o.f3), ""}); F.push_back({B(26, 2, 1, o.f3), ""}); F.push_back({B(-28, 3, 3, o.f3), ""}); }
  F.push_back({I(0x44, 8, 0, 8, 0x67), ""}); F.push_back({I(0x40, 3, 0, 3, 0x67), ""});
  contexts(sh, F);
  all_words(sh, {0x63, 0x67});
  if (tier) all_words(sh, {0x6F}); else all_words(sh, {0x6F}, 16);
}

// -------------------------------------------------------------------- C05
static bool word1(W& w, const C& b, u32 word, const char* label) {
  C c = b;
  Step s; s.word = word; s.rdata = 0x89C4D6E8;
  bool ok = w.exec(c, s);
  if (ok && c.iss.pc == c.iss.mtvec) ok = w.probe_csr(c, MCAUSE);
  else if (ok) { u32 rd = (word >> 7) & 31; ok = w.probe_x(c, rd); }
  if (ok) { w.leaf(label); return true; }
  return w.report(label);
}
static void c05(Shared& sh) {
  {
    std::vector<Sym> F;
    for (auto& s : alphabet(true, true)) { Iss t; memset(&t, 0, sizeof t); t.x[8] = 0x1000; iss_step(t, s.word, 0, 0); if (t.mcause == C_ILLEGAL || (s.word & 127) == 0x73 || (s.word & 127) == 0x0F) F.push_back(s); }
    for (u32 x : {0x00000074u, 0x00008073u, 0x00000173u, 0x00200073u, 0x30200F73u, 0x30208073u, 0x10500173u, 0x10200073u, 0x7B200073u, 0x0000100Fu, 0x0000700Fu, 0x00004073u, 0x00001063u ^ 0x3000u, 0x00002063u, 0x00003003u, 0x00006003u, 0x00007003u, 0x00003023u, 0x00007023u, 0x00001067u, 0x02000033u, 0x40001033u, 0x40002033u, 0x40007033u, 0x80000033u, 0x02001013u, 0x40001013u, 0x20005013u, 0x60005013u, 0x0000001Bu, 0x0000003Bu, 0x0000002Fu, 0x00000007u, 0x00000027u, 0x00000053u, 0x0000006Bu, 0x0000000Bu, 0x00000001u, 0x00004082u, 0xFFFFFFFEu})
      F.push_back({x, ""});
    contexts(sh, F);
  }
  static const u32 FULL[] = {0x73, 0x33, 0x13, 0x0F, 0x67, 0x03, 0x23, 0x63};
  if (tier) {
    bound("all 2^32 instruction words");
    parallel<T>(sh, 1 << 16, [&](W& w, long i) {
      C c;
      if (!base0(w, c)) return;
      for (u32 n = 0; n < 65536; n++) if (!word1(w, c, (u32)i << 16 | n, "word")) return;
    });
    return;
  }
  bound("all 2^25 words of each of the opcodes system, op, op-imm, misc-mem, jalr, load, store, branch; every (opcode,funct3,funct7) with 4x4x4 register fields; every word with one or two non-opcode bits set over every opcode");
  parallel<T>(sh, 8 * 4096, [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    u32 op = FULL[i >> 12];
    for (u32 n = 0; n < 8192; n++) if (!word1(w, c, ((u32)(i & 4095) << 13 | n) << 7 | op, "opcode-exhaustive")) return;
  });
  static const u32 RF[] = {0, 1, 19, 31};
  parallel<T>(sh, 128 * 128, [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    u32 op = i & 127, f7 = i >> 7;
    for (u32 f3 = 0; f3 < 8; f3++) for (u32 a : RF) for (u32 b : RF) for (u32 d : RF)
      if (!word1(w, c, R(f7, a, b, f3, d, op), "field grid")) return;
  });
  parallel<T>(sh, 128, [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    for (u32 a = 7; a < 32; a++) for (u32 b = 7; b <= a; b++) {
      u32 x = 1u << a | 1u << b;
      if (!word1(w, c, x | i, "sparse") || !word1(w, c, (~x & 0xFFFFFF80u) | i, "sparse")) return;
    }
  });
}

// -------------------------------------------------------------------- C06
static std::vector<Sym> trap_sources() {
  std::vector<Sym> a;
  auto p = [&](u32 w, const char* n) { a.push_back({w, n, 0xA5A5A5A5}); };
  p(ECALL, "ecall"); p(EBREAK, "ebreak"); p(0, "illegal 0"); p(0xFFFFFFFF, "illegal ~0"); p(R(1, 2, 1, 0, 3), "illegal mul");
  p(0x0000100F, "illegal fence.i"); p(I(0, 8, 3, 3, 3), "illegal ld"); p(S(0, 3, 8, 3), "illegal sd"); p(B(8, 1, 2, 2), "illegal branch"); p(I(0x400, 1, 1, 3), "illegal slli");
  p(I(1, 8, 1, 3, 3), "lh misaligned"); p(I(3, 8, 5, 3, 3), "lhu misaligned"); p(I(1, 8, 2, 3, 3), "lw misaligned 1"); p(I(2, 8, 2, 3, 3), "lw misaligned 2"); p(I(3, 8, 2, 8, 3), "lw misaligned rd=rs1");
  p(S(1, 3, 8, 1), "sh misaligned"); p(S(1, 3, 8, 2), "sw misaligned 1"); p(S(2, 3, 8, 2), "sw misaligned 2"); p(S(3, 3, 8, 2), "sw misaligned 3");
  p(B(18, 0, 0, 0), "beq misaligned"); p(B(-30, 0, 0, 5), "bge misaligned"); p(B(6, 1, 2, 1), "bne misaligned"); p(J(22, 3), "jal misaligned"); p(J(-26, 0), "jal x0 misaligned");
  p(I(2, 8, 0, 3, 0x67), "jalr misaligned"); p(I(3, 8, 0, 8, 0x67), "jalr misaligned rd=rs1"); p(I(6, 8, 0, 0, 0x67), "jalr x0 misaligned");
  p(CSR(0x7C0, 3, 1, 3), "csr unknown"); p(CSR(0x302, 3, 2, 3), "csr medeleg"); p(CSR(0xF14, 3, 1, 3), "csrrw mhartid"); p(CSR(0xF11, 3, 2, 3), "csrrs mvendorid"); p(CSR(0xF12, 1, 7, 3), "csrrci marchid");
  p(CSR(MSTATUS, 3, 4, 3), "system funct3=4"); p(0x10200073, "sret"); p(0x00200073, "uret"); p(0x30200F73, "mret with rd");
  auto q = [&](u32 w, const char* n) { a.push_back({w, n, 0xA5A5A5A5, 1}); };
  q(NOP, "interrupt line high, nop"); q(ECALL, "interrupt line high, ecall"); q(0, "interrupt line high, illegal 0"); q(I(6, 8, 0, 3, 0x67), "interrupt line high, jalr misaligned"); q(MRET, "interrupt line high, mret");
  return a;
}
static void c06(Shared& sh) {
  auto src = trap_sources();
  auto alpha = alphabet(false, false);
  bound("all sequences of %d trap sources from %zu (each optionally followed by mret) x mstatus in {0,MIE,MPIE,MIE|MPIE} x 2 trap vectors; every representative instruction before and after each source; after every trap all registers and CSRs are read back; waits 1..3 for single traps; all %zu trap sources at 13 program counters", tier ? 3 : 2, src.size(), src.size());
  int ns = src.size();
  static const u32 MS[] = {0, MIE_BIT, MPIE_BIT, MIE_BIT | MPIE_BIT};
  std::function<bool(W&, const C&, int)> rec = [&](W& w, const C& c, int left) -> bool {
    for (int k = 0; k < ns; k++) {
      C d = c;
      bool ok = exs(w, d, src[k]);
      C e = d;
      if (ok) ok = w.probe_csrs(e) && w.probe_all_x(e);
      if (!ok) { if (!w.report(src[k].name.c_str())) return false; continue; }
      w.outcome(H(d.iss.mepc, d.iss.mcause, d.iss.mstatus));
      w.leaf("trap sequence");
      if (left > 1) {
        if (!rec(w, d, left - 1)) return false;
        if (!ex(w, d, MRET)) { if (!w.report("mret")) return false; continue; }
        if (!w.probe_csrs(d)) { if (!w.report("mret")) return false; continue; }
        if (!rec(w, d, left - 1)) return false;
      }
    }
    return true;
  };
  parallel<T>(sh, 8 * ns, [&](W& w, long i) {
    C c;
    int cfg = i / ns;
    if (!w.base(1 + cfg, c, [&](C& x) { return mk_base(w, x, cfg & 4 ? 0x00080800 : 0xFFFFFFFC, MS[cfg & 3], MEI_BIT); })) return;
    int k = i % ns;
    C d = c;
    bool ok = exs(w, d, src[k]);
    C e = d;
    if (ok) ok = w.probe_csrs(e) && w.probe_all_x(e);
    if (!ok) { w.report(src[k].name.c_str()); return; }
    w.leaf("single trap");
    int depth = tier ? 2 : 1;
    if (!rec(w, d, depth)) return;
    if (!ex(w, d, MRET) || !w.probe_csrs(d)) { w.report("mret"); return; }
    rec(w, d, depth);
  });
  parallel<T>(sh, alpha.size() * ns, [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    auto& a = alpha[i / ns];
    auto& s = src[i % ns];
    for (int d = 0; d < 27; d++) {
      C x = c;
      Step s1, s2;
      s1.word = a.word; s1.rdata = a.rdata; s1.fd = 1 + d % 3; s1.md = 1 + d / 3 % 3; s1.junk = d % 5;
      s2 = st_of(s); s2.fd = 1 + d / 9; s2.junk = (d + 1) % 5;
      bool ok = w.exec(x, s1) && w.exec(x, s2);
      C y = x;
      if (ok) ok = w.probe_csrs(y) && w.probe_all_x(y);
      if (ok) { y = x; ok = ex(w, y, MRET) && w.probe_csrs(y); }
      if (ok) { y = x; ok = w.exec(y, s1) && w.probe_csrs(y) && w.probe_all_x(y); }
      if (ok) w.leaf("instruction, trap"); else if (!w.report(s.name.c_str())) return;
    }
  });
  parallel<T>(sh, ns * 13, [&](W& w, long i) {
    C c;
    int p = i / ns;
    if (!w.base(101 + p, c, [&](C& x) { return mk_base(w, x) && goto_pc(w, x, PCS[p]); })) return;
    auto& s = src[i % ns];
    bool ok = exs(w, c, s) && w.probe_csrs(c) && w.probe_all_x(c);
    if (ok) w.leaf("trap pc"); else w.report(s.name.c_str());
  });
  contexts(sh, src);
}

// -------------------------------------------------------------------- C07
static void c07(Shared& sh) {
  std::vector<u32> v = values(tier ? 2 : 1);
  static const u32 REAL[] = {MSTATUS, MIE_, MTVEC, MSCRATCH, MEPC, MCAUSE, MIP_};
  bound("all 4096 CSR numbers x 6 instructions x rs1/uimm in {0,1,5,8,31} x rd in {0,3,31} with every CSR read back; 7 CSRs x %zu old x %zu new values x 3 register forms, x all 32 immediates x 3; all ordered sequences of %d CSR instructions from the 7 CSRs x 6 forms", v.size(), v.size(), tier ? 3 : 2);
  parallel<T>(sh, 4096, [&](W& w, long n) {
    C c;
    if (!base0(w, c)) return;
    static const u32 S5[] = {0, 1, 5, 8, 31}, D3[] = {0, 3, 31};
    for (u32 f3 : {1, 2, 3, 5, 6, 7}) for (u32 r1 : S5) for (u32 rd : D3) {
      C d = c;
      bool ok = ex(w, d, CSR(n, r1, f3, rd));
      if (ok) { C e = d; ok = (d.iss.pc == d.iss.mtvec ? w.probe_csr(e, MCAUSE) : w.probe_x(d, rd)); }
      if (ok && (csr_kind(n) == CSR_REAL || rd == 3)) ok = w.probe_csrs(d);
      if (ok) { w.outcome(H(d.iss.pc, d.iss.mcause)); w.leaf("csr number"); }
      else if (!w.report("csr number")) return;
    }
  });
  parallel<T>(sh, 7 * v.size(), [&](W& w, long i) {
    C c, d;
    u32 n = REAL[i % 7];
    if (!base0(w, c)) return;
    if (!w.li(c, 11, v[i / 7]) || !w.csrw(c, n, 11)) { w.report("old value"); return; }
    for (u32 x : v) {
      d = c;
      if (!w.li(d, 12, x)) { if (!w.report("new value")) return; continue; }
      for (u32 f3 = 1; f3 <= 3; f3++) {
        C e = d;
        bool ok = ex(w, e, CSR(n, 12, f3, 13)) && w.probe_x(e, 13) && w.probe_csr(e, n);
        if (ok) w.leaf("values"); else if (!w.report("values")) return;
      }
    }
    for (u32 u = 0; u < 32; u++) for (u32 f3 = 5; f3 <= 7; f3++) {
      C e = c;
      bool ok = ex(w, e, CSR(n, u, f3, 13)) && w.probe_x(e, 13) && w.probe_csr(e, n);
      if (ok) w.leaf("immediates"); else if (!w.report("immediates")) return;
    }
  });
  // sequences; rs1 aliases rd in one form, x9 = 0x800 drives mie
  std::vector<u32> seq;
  for (u32 n : REAL) for (u32 f3 : {1, 2, 3, 5, 6, 7}) { seq.push_back(CSR(n, f3 & 4 ? 8 : 9, f3, 3)); seq.push_back(CSR(n, 3, f3, 3)); }
  int ns = seq.size();
  parallel<T>(sh, ns * ns, [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    bool ok = ex(w, c, seq[i / ns]) && ex(w, c, seq[i % ns]) && w.probe_csrs(c) && w.probe_all_x(c);
    if (!ok) { w.report("sequence"); return; }
    w.leaf("sequence");
    if (tier) for (u32 x : seq) {
      C d = c;
      ok = ex(w, d, x) && w.probe_csrs(d) && w.probe_all_x(d);
      if (ok) w.leaf("sequence"); else if (!w.report("sequence")) return;
    }
  });
  // mip mirrors the line, whatever is written
  parallel<T>(sh, 2 * 64, [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    Step s; s.irq0 = i & 1; s.word = CSR(MIP_, (i >> 1) & 7, 1 + (i >> 4) % 3 + ((i >> 6) ? 4 : 0), 3);
    Step q; q.irq0 = i & 1; q.word = CSR(MIP_, 0, 2, 5);
    bool ok = w.exec(c, s) && w.probe_x(c, 3) && w.exec(c, q) && w.probe_x(c, 5);
    if (ok) w.leaf("mip"); else w.report("mip");
  });
  std::vector<Sym> F;
  for (auto& f : forms_of({0x73})) if ((f.word >> 12) & 3) F.push_back(f);
  for (u32 n : {MSTATUS, MIE_, MTVEC, MSCRATCH, MEPC, MCAUSE, MIP_}) for (u32 f3 : {1, 2, 3, 5}) F.push_back({CSR(n, f3 == 1 ? 3 : 9, f3, 3), ""});
  contexts(sh, F);
  all_words(sh, {0x73});
}

// -------------------------------------------------------------------- C08
static void c08(Shared& sh) {
  auto a = alphabet(true, true);
  int n = a.size();
  int maxk = tier ? 70 : 30;
  bound("all pairs of %d instruction forms x (MIE,MEIE) in 4 x all interrupt-line intervals [on,off) with on,off <= %d cycles of either polarity over the pair; all registers and CSRs read back; then mret and resume; level held for sequences of %d instructions", n, maxk, tier ? 4 : 3);
  // 1. one interval over one instruction, then constant over the follower
  parallel<T>(sh, (long)n * 4, [&](W& w, long i) {
    C c;
    int cfg = i % 4;
    if (!w.base(1 + cfg, c, [&](C& x) { return mk_base(w, x, 0x00040400, (cfg & 1 ? MIE_BIT : 0) | (i & 4 ? MPIE_BIT : 0), cfg & 2 ? MEI_BIT : 0); })) return;
    auto& s = a[i / 4];
    for (int pol = 0; pol < 2; pol++) for (int on = 0; on <= maxk; on++) for (int off = on + 1; off <= maxk + 1; off++) {
      C d = c;
      Step x; x.word = s.word; x.rdata = s.rdata; x.irq0 = pol; x.ion = on; x.ioff = off;
      bool ok = w.exec(d, x);
      bool tail = off > (int)w.last_cycles;
      C e = d;
      if (ok) ok = w.probe_csrs(e) && w.probe_all_x(e);
      if (ok) { w.outcome(H(d.iss.pc, d.iss.mcause, d.iss.mepc)); w.leaf("interval"); }
      else if (!w.report("interval")) return;
      if (tail) break;
    }
  });
  // 2. pairs: line rises at cycle r and falls at cycle f across the pair
  parallel<T>(sh, (long)n * n, [&](W& w, long i) {
    C c;
    if (!w.base(9, c, [&](C& x) { return mk_base(w, x, 0x00040400, MIE_BIT, MEI_BIT); })) return;
    auto &s = a[i / n], &t = a[i % n];
    int lim1 = 14, lim2 = 14;
    for (int r = 0; r < lim1; r += tier ? 1 : 1) {
      C d = c;
      Step x; x.word = s.word; x.rdata = s.rdata; x.ion = r; x.ioff = 9999;
      bool ok = w.exec(d, x);
      int l1 = w.last_cycles;
      if (!ok) { if (!w.report("pair")) return; continue; }
      for (int f = 0; f < lim2; f++) {
        C e = d;
        Step y; y.word = t.word; y.rdata = t.rdata; y.ion = 0; y.ioff = f;
        ok = w.exec(e, y);
        int l2 = w.last_cycles;
        if (ok) { C g = e; ok = w.probe_csrs(g); }
        if (ok) { Step m; m.word = MRET; ok = w.exec(e, m) && w.probe_csrs(e) && (!tier || w.probe_all_x(e)); }
        if (ok) w.leaf("pair"); else if (!w.report("pair")) return;
        if (f > l2) break;
      }
      if (r > l1) break;
    }
  });
  // 3. constant level over sequences of instructions from every enable state
  int depth = tier ? 4 : 3;
  std::vector<Sym> b;
  for (auto& s : a) {
    static const char* keep[] = {"add x3,x1,x2", "slli x2,x3,0", "sll x2,x3,x1", "lw x3,4(x8)", "sw x3,8(x8)", "beq x0,x0,+16", "jal x1,+40", "mret", "ecall", "word 0", "lw x3,6(x8)", "csrrsi x1,mstatus,8", "csrrci x1,mstatus,8", "csrrs x2,mie,x9", "csrrc x2,mie,x9", "csrr x3,mip", "csrrw x3,mtvec,x10", "wfi", "fence", "auipc x2", "csrrw x2,mstatus,x3", "jalr x3,2(x8) (misaligned)"};
    for (auto k : keep) if (s.name == k) b.push_back(s);
  }
  int nb = b.size();
  std::function<bool(W&, const C&, int)> rec = [&](W& w, const C& c, int left) -> bool {
    for (auto& s : b) for (int q = 0; q < 2; q++) {
      C d = c;
      Step x; x.word = s.word; x.rdata = s.rdata; x.irq0 = q;
      if (!w.exec(d, x)) { if (!w.report("level sequence")) return false; continue; }
      if (left > 1) { if (!rec(w, d, left - 1)) return false; }
      else {
        C e = d;
        if (w.probe_csrs(e)) w.leaf("level sequence"); else if (!w.report("level sequence")) return false;
      }
    }
    return true;
  };
  parallel<T>(sh, 4 * nb * 2, [&](W& w, long i) {
    C c;
    int cfg = i % 4;
    if (!w.base(1 + cfg, c, [&](C& x) { return mk_base(w, x, 0x00040400, (cfg & 1 ? MIE_BIT : 0), cfg & 2 ? MEI_BIT : 0); })) return;
    Step x; x.word = b[i / 8].word; x.rdata = b[i / 8].rdata; x.irq0 = (i / 4) & 1;
    if (!w.exec(c, x)) { w.report("level sequence"); return; }
    rec(w, c, depth - 1);
  });
  std::vector<Sym> F;
  for (auto& f : events()) if (f.irq) F.push_back(f);
  for (u32 x : {R(0, 2, 1, 1, 3), J(40, 1), B(16, 0, 0, 0), CSR(MIP_, 0, 2, 3), CSR(MEPC, 3, 1, 2), (u32)WFI, (u32)FENCE, U(0x12345, 2, 0x17), S(7, 1, 8, 1), I(3, 8, 0, 3, 0x67)}) F.push_back({x, "", 0x89C4D6E8, 1});
  contexts(sh, F);
}

// -------------------------------------------------------------------- C09
static void c09(Shared& sh) {
  struct Sy { u32 w; u8 irq; };
  std::vector<Sy> a = {{ECALL, 0}, {0, 0}, {MRET, 0}, {CSR(MSTATUS, 8, 6, 0), 0}, {CSR(MSTATUS, 8, 7, 0), 0}, {CSR(MSTATUS, 11, 1, 0), 0}, {CSR(MSTATUS, 12, 1, 0), 0}, {CSR(MSTATUS, 13, 1, 0), 0}, {CSR(MSTATUS, 0, 1, 0), 0}, {CSR(MSTATUS, 12, 3, 0), 0}, {CSR(MEPC, 14, 1, 0), 0}, {NOP, 1}, {MRET, 1}, {ECALL, 1}, {I(1, 8, 2, 3, 3), 0}};
  int n = a.size(), depth = tier ? 7 : 6;
  bound("all sequences of length %d over %d events (traps, mret, mstatus/mepc writes of every MIE/MPIE combination, interrupts) with mstatus and mepc read back after every event", depth, n);
  std::function<bool(W&, const C&, int)> rec = [&](W& w, const C& c, int left) -> bool {
    for (auto& s : a) {
      C d = c;
      Step x; x.word = s.w; x.irq0 = s.irq;
      bool ok = w.exec(d, x);
      if (ok) { C e = d; ok = w.probe_csr(e, MSTATUS, 31) && w.probe_csr(e, MEPC, 31) && w.probe_csr(e, MCAUSE, 31); }
      if (!ok) { if (!w.report("event sequence")) return false; continue; }
      w.outcome(H(d.iss.mstatus, d.iss.mepc, d.iss.pc));
      if (left > 1) { if (!rec(w, d, left - 1)) return false; } else w.leaf("event sequence");
    }
    return true;
  };
  parallel<T>(sh, n * n, [&](W& w, long i) {
    C c;
    if (!w.base(1, c, [&](C& x) { return mk_base(w, x, 0x00040400, 0, MEI_BIT) && w.li(x, 11, MIE_BIT) && w.li(x, 12, MPIE_BIT) && w.li(x, 13, 0xFFFFFFFF) && w.li(x, 14, 0x0000ABCC); })) return;
    Step x; x.word = a[i / n].w; x.irq0 = a[i / n].irq;
    Step y; y.word = a[i % n].w; y.irq0 = a[i % n].irq;
    if (!w.exec(c, x) || !w.exec(c, y)) { w.report("event sequence"); return; }
    rec(w, c, depth - 2);
  });
  std::vector<Sym> F = {{MRET, ""}, {MRET, "", 0, 1}, {ECALL, ""}, {NOP, "", 0, 1}, {0, ""}, {I(5, 8, 1, 3, 3), "", 1}};
  for (u32 f3 : {1, 2, 3}) F.push_back({CSR(MSTATUS, 3, f3, 2), ""});
  for (u32 f3 : {5, 6, 7}) F.push_back({CSR(MSTATUS, 8, f3, 2), ""});
  contexts(sh, F);
}

// -------------------------------------------------------------------- C10
static void c10(Shared& sh) {
  auto a = alphabet(true, true);
  int n = a.size(), D = tier ? 10 : 6;
  bound("protocol monitor on every cycle of all pairs of %d instruction forms x fetch waits 1..%d x data waits 1..%d x idle-bus patterns x interrupt line in {0,1,toggling,late}; waits of 1..%d cycles and selected ones up to %d on singles; all triples x waits 1..2 x interrupt line in {0,1}", n, D, D, tier ? 5000 : 600, tier ? 262145 : 65537);
  parallel<T>(sh, (long)n * n, [&](W& w, long i) {
    C c;
    if (!w.base(1, c, [&](C& x) { return mk_base(w, x, 0x00040400, MIE_BIT, MEI_BIT); })) return;
    for (int fd = 1; fd <= 2; fd++) for (int q = 0; q < 2; q++) {
      C d = c;
      Step x = st_of(a[i / n]), y = st_of(a[i % n]);
      x.fd = x.md = y.fd = y.md = fd; x.irq0 = y.irq0 = q; x.junk = y.junk = (i + fd) % N_JUNK;
      bool ok = w.exec(d, x) && w.exec(d, y);
      if (!ok) { if (w.kind != V_PROTO) w.kind = V_ABORT; if (!w.report("triple")) return; continue; }
      for (auto& s : a) {
        C e = d;
        Step z = st_of(s);
        z.fd = z.md = fd; z.junk = x.junk;
        ok = w.exec(e, z) && w.feed(e, NOP);
        if (!ok && w.kind != V_PROTO) w.kind = V_ABORT;
        if (ok) w.leaf("triple"); else if (!w.report("triple")) return;
      }
    }
  }, true);
  parallel<T>(sh, (long)n * n, [&](W& w, long i) {
    C c;
    if (!w.base(1, c, [&](C& x) { return mk_base(w, x, 0x00040400, MIE_BIT, MEI_BIT); })) return;
    auto &s = a[i / n], &t = a[i % n];
    for (int fd = 1; fd <= D; fd++) for (int md = 1; md <= D; md++) {
      int j = (fd * D + md + i) % N_JUNK;
      for (int q = 0; q < 4; q++) {
        C d = c;
        Step x, y;
        x.word = s.word; x.rdata = s.rdata; x.fd = fd; x.md = md; x.junk = j;
        y.word = t.word; y.rdata = t.rdata; y.fd = fd; y.md = md; y.junk = j;
        if (q == 1) { x.irq0 = 1; }
        if (q == 2) { x.imask = 0xAAAAAAAAAAAAAAAAull; y.imask = 0x3333333333333333ull; }
        if (q == 3) { x.ion = fd + 1; x.ioff = 9999; }
        bool ok = w.exec(d, x) && w.exec(d, y) && w.feed(d, NOP);
        if (!ok && w.kind != V_PROTO) w.kind = V_ABORT;   // other effects belong to other properties
        if (ok) w.leaf("pair"); else if (!w.report("pair")) return;
      }
    }
  }, true);
  int M = tier ? 5000 : 600;
  parallel<T>(sh, n, [&](W& w, long i) {
    C c;
    if (!w.base(1, c, [&](C& x) { return mk_base(w, x, 0x00040400, MIE_BIT, MEI_BIT); })) return;
    std::vector<int> wl;
    for (int d = 1; d <= M; d += d < 70 ? 1 : 53) wl.push_back(d);
    for (int d : {1025, 4097, 16385, 65537, 262145}) if (d > M && (tier || d < 100000)) wl.push_back(d);
    for (int d : wl) for (int which = 0; which < 3; which++) {
      C e = c;
      Step x; x.word = a[i].word; x.rdata = a[i].rdata; x.fd = which != 1 ? d : 1; x.md = which != 0 ? d : 1; x.junk = d & 3;
      bool ok = w.exec(e, x) && w.feed(e, NOP);
      if (!ok && w.kind != V_PROTO) w.kind = V_ABORT;
      if (ok) w.leaf("long wait"); else if (!w.report("long wait")) return;
    }
  }, true);
  long_runs(sh, a, tier ? 20000 : 3000, tier ? 20000 : 3000, [](W& w, C& c, const Sym& f, int k) {
    Step x = st_of(f);
    x.fd = 1 + (k % 3 == 0) * (k / 3 % 4); x.md = 1 + k % 4 / 2; x.junk = k % N_JUNK;
    bool ok = w.exec(c, x);
    if (!ok && w.kind != V_PROTO) w.kind = V_ABORT;
    return ok;
  }, true);
}

// -------------------------------------------------------------------- C11
static void c11(Shared& sh) {
  auto a = alphabet(true, true);
  int n = a.size(), D = tier ? 8 : 4;
  bound("all pairs of %d instruction forms x fetch waits 1..%d x data waits 1..%d x 6 idle-bus patterns, and x 18 idle-bus instruction words x short waits, all registers and CSRs read back; single forms with each wait 1..300 and selected waits up to %d", n, D, D, tier ? 262145 : 65537);
  parallel<T>(sh, (long)n * n, [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    auto &s = a[i / n], &t = a[i % n];
    for (int fd = 1; fd <= D; fd++) for (int md = 1; md <= D; md++) for (int j = 0; j < 6; j++) {
      if (!tier && (fd + md + j) % 3) continue;
      C d = c;
      Step x, y;
      x.word = s.word; x.rdata = s.rdata; x.fd = fd; x.md = md; x.junk = j;
      y.word = t.word; y.rdata = t.rdata; y.fd = 1 + (fd + j) % D; y.md = 1 + (md + j) % D; y.junk = j;
      bool ok = w.exec(d, x) && w.exec(d, y) && (w.probe_csrs(d) && w.probe_all_x(d));
      if (ok) w.leaf("pair"); else if (!w.report("pair")) return;
    }
    for (int j = 6; j < N_JUNK; j++) for (int fd = 1; fd <= (tier ? 4 : 2); fd++) for (int md = 1; md <= 2; md++) {
      C d = c;
      Step x = st_of(s), y = st_of(t);
      x.fd = fd; x.md = md; x.junk = j; y.fd = md; y.md = fd; y.junk = (j & 1) ? j : N_JUNK - 1 - j;
      bool ok = w.exec(d, x) && w.exec(d, y) && full(w, d);
      if (ok) w.leaf("pair"); else if (!w.report("pair")) return;
    }
  });
  std::vector<int> wl;
  for (int d = 1; d <= 300; d++) wl.push_back(d);
  for (int d : {511, 512, 513, 1023, 1024, 1025, 2048, 4097, 5000, 8193, 16385, 32769, 65537}) wl.push_back(d);
  if (tier) for (int d : {131073, 262145}) wl.push_back(d);
  parallel<T>(sh, n, [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    for (int d : wl) for (int which = 0; which < 3; which++) {
      C e = c;
      Step x; x.word = a[i].word; x.rdata = a[i].rdata; x.fd = which != 1 ? d : 1; x.md = which != 0 ? d : 1; x.junk = 2;
      bool ok = w.exec(e, x) && w.probe_csrs(e) && w.probe_all_x(e);
      if (ok) w.leaf("long wait"); else if (!w.report("long wait")) return;
    }
  });
  long_runs(sh, a, tier ? 20000 : 3000, tier ? 20000 : 3000, [](W& w, C& c, const Sym& f, int k) {
    Step x = st_of(f);
    x.fd = 1 + (k % 3 == 0) * (k / 3 % 4); x.md = 1 + k % 4 / 2; x.junk = k % N_JUNK;
    return w.exec(c, x);
  });
}

// -------------------------------------------------------------------- C12
static void c12(Shared& sh) {
  auto a = alphabet(true, true);
  int n = a.size();
  // first instructions whose effect is defined although the registers are not
  std::vector<Sym> first;
  for (u32 x : {U(0x89ABC, 3, 0x37), U(0x12345, 3, 0x17), I(5, 0, 0, 3), I(0xFFF, 0, 4, 3), I(3, 0, 1, 3), I(0x400, 0, 5, 3), R(0, 0, 0, 0, 3), R(0x20, 0, 0, 0, 3), R(0, 0, 0, 3, 3), R(0x20, 0, 0, 5, 3), I(0, 0, 2, 3, 3), I(1, 0, 0, 3, 3), I(2, 0, 5, 3, 3), I(2, 0, 2, 3, 3), S(4, 0, 0, 2), S(3, 0, 0, 0), S(1, 0, 0, 1),
                B(16, 0, 0, 0), B(16, 0, 0, 1), B(18, 0, 0, 0), J(16, 3), J(18, 3), I(8, 0, 0, 3, 0x67), I(2, 0, 0, 3, 0x67), (u32)FENCE, (u32)WFI, (u32)ECALL, (u32)EBREAK, 0u, 0xFFFFFFFFu, CSR(0xF11, 0, 2, 3), CSR(0x301, 0, 1, 3), CSR(0x302, 0, 1, 3), CSR(MIP_, 0, 2, 3), CSR(MCAUSE, 0, 2, 3), CSR(MSCRATCH, 7, 5, 0), CSR(MTVEC, 0, 1, 0), CSR(MSTATUS, 8, 5, 0)})
    first.push_back({x, "", 0x89C4D6E8});
  bound("reset asserted at every cycle of every pair of %d instruction forms (each with interrupts enabled or not) x waits 1..%d for 1..%d cycles with 4 acknowledge patterns; after each: no request, first fetch at 0, x0, mcause and MIE read back; the machine re-initialised and fully read back (quick: every 8th); and each of %zu first instructions after resets at every cycle of every form", n, tier ? 3 : 2, tier ? 4 : 3, first.size());
  parallel<T>(sh, (long)n * n, [&](W& w, long i) {
    C c;
    int cfg = (i ^ i / n) & 1;
    if (!w.base(1 + cfg, c, [&](C& x) { return mk_base(w, x, 0x00040400, cfg ? MIE_BIT : 0, cfg ? MEI_BIT : 0); })) return;
    auto& s = a[i % n];
    auto& p = a[i / n];
    if (!ex(w, c, p.word, p.rdata)) { w.kind = V_NONE; return; }
    int turn = i % 8;
    for (int dl = 0; dl < (tier ? 3 : 2); dl++) for (int at = 1; at < 80; at++) {
      bool was = false;
      for (int du = 1; du <= (tier ? 4 : 3); du += tier ? 1 : 2) for (int ak = 0; ak < 4; ak++) for (int q = 0; q < 2; q++) {
        C d = c;
        Step x; x.word = s.word; x.rdata = s.rdata; x.fd = 1 + dl; x.md = 1 + dl; x.rst_at = at; x.rst_n = du; x.rst_ack = ak; x.irq0 = q; x.junk = (i + du + at) % N_JUNK;
        bool ok = w.exec(d, x);
        if (ok && w.resets == 0) { was = true; break; }
        if (!ok && w.kind != V_RESET && w.kind != V_HANG && !w.resets) { w.kind = V_NONE; was = true; break; }
        if (ok) { C e = d; ok = w.probe_x(e, 0) && w.probe_csr(e, MCAUSE) && ex(w, e, CSR(MSTATUS, 0, 2, 31)) && ex(w, e, I(8, 31, 7, 31)) && w.probe_x(e, 31); }
        if (ok && (tier || turn++ % 8 == 0)) { C e = d; e.iss.mie = 0; ok = w.setup(e) && w.probe_all(e); }
        if (ok) w.leaf("reset"); else if (!w.report("reset")) return;
      }
      if (was) break;
    }
  });
  parallel<T>(sh, (long)n * 2, [&](W& w, long i) {
    C c;
    int cfg = i & 1;
    if (!w.base(1 + cfg, c, [&](C& x) { return mk_base(w, x, 0x00040400, cfg ? MIE_BIT : 0, cfg ? MEI_BIT : 0); })) return;
    auto& s = a[i / 2];
    for (int at = 1; at < 80; at++) for (int du = 1; du <= 2; du++) for (int q = 0; q < 2; q++) for (int ak = 0; ak < 2; ak++) {
      C d = c;
      Step x = st_of(s);
      x.rst_at = at; x.rst_n = du; x.rst_ack = ak; x.irq0 = q; x.junk = (at + du) % N_JUNK;
      bool ok = w.exec(d, x);
      if (ok && w.resets == 0) { at = 999; break; }
      if (!ok && !w.resets) { w.kind = V_NONE; at = 999; break; }
      if (!ok) { if (!w.report("first")) return; continue; }
      for (auto& f : first) {
        C e = d;
        Step y = st_of(f);
        y.irq0 = q; y.junk = 2;
        Iss pre = e.iss;
        bool trap = iss_step(pre, f.word, f.rdata, q).trap;
        if (trap && (s.word & 0xFFF0007F) == CSR(MTVEC, 0, 0, 0)) continue;   // the vector may or may not have been written
        ok = w.exec(e, y);
        u32 op = f.word & 127, rd = (f.word >> 7) & 31;
        if (ok && trap) ok = w.probe_csr(e, MCAUSE) && w.probe_csr(e, MEPC) && w.probe_csr(e, MSTATUS);
        else if (ok && op != 0x63 && op != 0x23 && rd) ok = w.probe_x(e, rd);
        else if (ok && op == 0x73 && (f.word >> 20) == MSCRATCH) ok = w.probe_csr(e, MSCRATCH);
        else if (ok && op == 0x73 && (f.word >> 20) == MTVEC) ok = w.probe_csr(e, MTVEC);
        else if (ok && f.word == CSR(MSTATUS, 8, 5, 0) && !q) ok = w.probe_csr(e, MSTATUS);
        if (ok) { w.outcome(H(f.word, e.iss.pc)); w.leaf("first"); } else if (!w.report("first")) return;
      }
    }
  });
  // resets held for long, and many resets in a row
  std::vector<int> hold, ats{1, 2, 4, 6};
  for (int d = 4; d <= 40; d++) hold.push_back(d);
  for (int k = 6; k <= (tier ? 16 : 12); k++) for (int e = -1; e <= 1; e++) hold.push_back((1 << k) + e);
  int most = tier ? 4098 : 1026;
  bound("resets held for 4..40 and 2^k and 2^k +- 1 cycles up to %d, begun at 4 places of every form, and 1..%d resets in a row at 2 places of every form (probed after 1..20 and 2^k and 2^k +- 1 of them), with 4 acknowledge patterns", hold.back(), most);
  auto after = [&](W& w, C& d) {
    C e = d;
    bool ok = w.probe_x(e, 0) && w.probe_csr(e, MCAUSE);
    if (ok) { e = d; e.iss.mie = 0; ok = w.setup(e) && w.probe_csrs(e); }
    return ok;
  };
  parallel<T>(sh, n, [&](W& w, long i) {
    C c;
    if (!w.base(1, c, [&](C& x) { return mk_base(w, x, 0x00040400, 0, 0); })) return;
    auto& s = a[i];
    int turn = i;
    for (int at : ats) for (int du : hold) {
      C d = c;
      Step x = st_of(s);
      x.rst_at = at; x.rst_n = du; x.rst_ack = turn % 4; x.irq0 = turn / 4 % 2; x.junk = turn % N_JUNK;
      turn++;
      bool ok = w.exec(d, x);
      if (!w.resets) { w.kind = V_NONE; break; }
      if (ok) ok = after(w, d);
      if (ok) w.leaf("long reset"); else if (!w.report("long reset")) return;
    }
    for (int at : {1, 5}) {
      C d = c;
      for (int t = 1; t <= most; t++) {
        Step x = st_of(s);
        x.rst_at = at; x.rst_n = 1 + (at == 5 && t % 3 == 0); x.rst_ack = (t + i) % 4; x.junk = 2;
        bool ok = w.exec(d, x);
        if (!w.resets) { w.kind = V_NONE; break; }
        bool look = t <= 20;
        for (int k = 5; k < 13; k++) look = look || (t >= (1 << k) - 1 && t <= (1 << k) + 1);
        if (ok && look) ok = after(w, d);
        if (ok) { if (look) w.leaf("many resets"); } else { if (!w.report("many resets")) return; break; }
      }
    }
  });
}

// -------------------------------------------------------------------- C13
#include "timing.h"

// -------------------------------------------------------------------- C14
static void c14(Shared& sh) {
  bound("all 32x32x32 register triples of add, and of one instruction per other R-type operation at 32x32 (rs1=rs2); all 32x32 rd/rs1 of every other form; all registers and CSRs read back each time");
  auto go = [](W& w, const C& c, u32 word, u32 rdata, const char* label) {
    C d = c;
    bool ok = ex(w, d, word, rdata);
    if (ok) { C e = d; ok = w.probe_csrs(e) && w.probe_all_x(e); }
    if (ok) { w.outcome(H(word)); w.leaf(label); return true; }
    return w.report(label);
  };
  parallel<T>(sh, 1024, [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    for (u32 rd = 0; rd < 32; rd++) {
      if (!go(w, c, R(0, i & 31, i >> 5, 0, rd), 0, "add triple")) return;
      if (tier) for (auto& o : OPS) if (!go(w, c, R(o.f7, i & 31, i >> 5, o.f3, rd), 0, "triple")) return;
    }
    u32 rd = i & 31, r1 = i >> 5;
    for (auto& o : OPS) if (!go(w, c, R(o.f7, rd, r1, o.f3, rd), 0, "op") || !go(w, c, R(o.f7, r1, r1, o.f3, rd), 0, "op")) return;
    for (auto& o : OPIS) if (!go(w, c, I(0xABC, r1, o.f3, rd), 0, "op-imm")) return;
    for (auto& o : SHIS) for (u32 sa : {0, 1, 31}) if (!go(w, c, I(o.f7 << 5 | sa, r1, o.f3, rd), 0, "shift-imm")) return;
    for (auto& o : LOADS) for (u32 k = 0; k < 4; k++) if (!go(w, c, I(k, r1, o.f3, rd, 3), 0x89C4D6E8, "load")) return;
    for (auto& o : STORES) for (u32 k = 0; k < 4; k++) if (!go(w, c, S(k, rd, r1, o.f3), 0, "store")) return;
    for (auto& o : BRS) if (!go(w, c, B(32, rd, r1, o.f3), 0, "branch") || !go(w, c, B(34, rd, r1, o.f3), 0, "branch")) return;
    for (u32 k = 0; k < 4; k++) if (!go(w, c, I(k, r1, 0, rd, 0x67), 0, "jalr")) return;
    for (u32 n : {(u32)MSCRATCH, (u32)MSTATUS, (u32)MTVEC, (u32)MEPC, (u32)MCAUSE, (u32)MIE_, (u32)MIP_, 0xF11u, 0x301u, 0xB00u, 0x302u}) for (u32 f3 : {1, 2, 3, 5, 6, 7})
      if (!go(w, c, CSR(n, r1, f3, rd), 0, "csr")) return;
    if (!go(w, c, U(0x89000 + r1, rd, 0x37), 0, "lui") || !go(w, c, U(0x89000 + r1, rd, 0x17), 0, "auipc") || !go(w, c, J(64 + 4 * r1, rd), 0, "jal") || !go(w, c, J(66, rd), 0, "jal") ||
        !go(w, c, rd << 7 | r1 << 15 | 0x0F, 0, "fence") || !go(w, c, rd << 7 | r1 << 15 | 0x7F, 0, "illegal")) return;
  });
  // x0 after every kind of write to it, used as both operands next
  auto a = alphabet(true, true);
  parallel<T>(sh, a.size(), [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    u32 op = a[i].word & 127;
    u32 word = (op == 0x63 || op == 0x23) ? a[i].word : a[i].word & ~0xF80u;
    for (auto& s : a) {
      C d = c;
      bool ok = ex(w, d, word, 0xFFFFFFFF) && ex(w, d, s.word & 0x8000007F ? s.word : s.word, s.rdata) && w.probe_x(d, 0) && ex(w, d, R(0, 0, 0, 0, 3)) && w.probe_x(d, 3) && ex(w, d, I(0x7FF, 0, 4, 3)) && w.probe_x(d, 3);
      if (ok) w.leaf("x0"); else if (!w.report("x0")) return;
    }
  });
  std::vector<Sym> F;
  for (auto& s : a) { u32 op = s.word & 127; if (op != 0x63 && op != 0x23) F.push_back({s.word & ~0xF80u, s.name, 0xFFFFFFFF}); else F.push_back(s); }
  contexts(sh, F);
}

// -------------------------------------------------------------------- C15
static void c15(Shared& sh) {
  auto a = events();
  int n = a.size();
  bound("all sequences of %d events (instruction forms and interrupts) over %d, interrupts disabled and enabled; all registers and CSRs read back at the end of each; pairs x %d idle-bus patterns x waits 1..3", tier ? 4 : 3, n, (int)N_JUNK);
  parallel<T>(sh, (long)n * n * 2, [&](W& w, long i) {
    C c;
    int cfg = i & 1;
    long k = i / 2;
    if (!w.base(1 + cfg, c, [&](C& x) { return mk_base(w, x, 0x00040400, cfg ? MIE_BIT : 0, cfg ? MEI_BIT : 0); })) return;
    if (!exs(w, c, a[k / n]) || !exs(w, c, a[k % n])) { w.report("sequence"); return; }
    for (auto& s : a) {
      C d = c;
      if (cfg && !(s.irq || a[k / n].irq || a[k % n].irq)) continue;
      bool ok = exs(w, d, s);
      if (!ok) { if (!w.report("sequence")) return; continue; }
      if (tier) for (auto& t : a) {
        C e = d;
        ok = exs(w, e, t) && w.probe_csrs(e) && w.probe_x(e, 1) && w.probe_x(e, 2) && w.probe_x(e, 3) && w.probe_x(e, 5);
        if (ok) w.leaf("sequence"); else if (!w.report("sequence")) return;
      }
      ok = full(w, d);
      if (ok) { w.outcome(H(d.iss.x[1], d.iss.x[2], d.iss.x[3])); w.leaf("sequence"); }
      else if (!w.report("sequence")) return;
    }
  });
  parallel<T>(sh, (long)n * n, [&](W& w, long i) {
    C c;
    if (!base0(w, c)) return;
    for (int j = 0; j < N_JUNK; j++) for (int fd = 1; fd <= 3; fd++) for (int md = 1; md <= 3; md++) {
      if (!tier && (j + fd + md) % 3) continue;
      C d = c;
      Step x = st_of(a[i / n]), y = st_of(a[i % n]);
      x.fd = y.md = fd; x.md = y.fd = md; x.junk = j; y.junk = (j * 5 + 3) % N_JUNK;
      if (w.exec(d, x) && w.exec(d, y) && full(w, d)) w.leaf("pair, waits"); else if (!w.report("pair, waits")) return;
    }
  });
  long_runs(sh, a, tier ? 200000 : 20000, tier ? 100000 : 20000);
}

// -------------------------------------------------------------------- C25
// every access the core makes, in order: exec() admits nothing but one fetch
// per instruction and one access per load or store that does not trap
static void c25(Shared& sh) {
  auto a = alphabet(true, true);
  int n = a.size();
  std::vector<Sym> mem;
  for (auto& s : a) if ((s.word & 127) == 3 || (s.word & 127) == 0x23) mem.push_back(s);
  int nm = mem.size(), D = tier ? 5 : 3, K = tier ? 60 : 22;
  bound("order and number of accesses: all triples of %d instruction forms with a load or store (%d forms) in the middle x waits 1..%d on the accesses x interrupt line in {0, 1, masked 1, alternating}; loads and stores x all interrupt-line intervals [on,off) with on,off <= %d x data waits 1..%d, then a reading interrupt handler and mret; loads and stores abandoned by a reset in every cycle", n, nm, D, K, D);
  auto prep = [](W& w, int cfg, C& c) { return w.base(100 + cfg, c, [&](C& x) { return mk_base(w, x, 0x00040400, cfg & 1 ? MIE_BIT : 0, cfg & 2 ? MEI_BIT : 0); }); };
  parallel<T>(sh, (long)n * nm, [&](W& w, long i) {
    for (int q = 0; q < 4; q++) {
      C c;
      if (!prep(w, q == 2 ? 1 : 3, c)) return;
      Step x = st_of(a[i / nm]), y = st_of(mem[i % nm]);
      if (q == 1 || q == 2) x.irq0 = y.irq0 = 1;
      if (q == 3) x.imask = y.imask = 0x5555555555555555ull;
      x.junk = y.junk = (i + q) % N_JUNK;
      if (!w.exec(c, x)) { if (!w.report("access order")) return; continue; }
      for (int md = 1; md <= D; md++) for (int fd = 1; fd <= 2; fd++) {
        C d = c;
        y.md = md; y.fd = fd;
        if (!w.exec(d, y)) { if (!w.report("access order")) return; continue; }
        for (auto& s : a) {
          if (!tier && (md + fd + q + (int)(&s - &a[0])) % 3) continue;
          C e = d;
          Step z = st_of(s);
          z.junk = x.junk; z.irq0 = q == 1 && (md & 1); z.fd = md;
          if (w.exec(e, z) && w.feed(e, NOP)) w.leaf("access order"); else if (!w.report("access order")) return;
        }
      }
    }
  });
  // an interrupt in any cycle: the access happens once, before or after it
  parallel<T>(sh, (long)nm * 4 * D, [&](W& w, long i) {
    C c;
    if (!prep(w, i % 4, c)) return;
    Step x = st_of(mem[i / 4 % nm]);
    x.md = 1 + i / 4 / nm; x.fd = 1 + i % 2;
    for (int pol = 0; pol < 2; pol++) for (int on = 0; on <= K; on++) for (int off = on + 1; off <= K + 1; off++) {
      C d = c;
      x.irq0 = pol; x.ion = on; x.ioff = off;
      bool ok = w.exec(d, x);
      bool tail = off > (int)w.last_cycles;
      if (ok) ok = w.feed(d, I(4, 8, 2, 3, 3)) && w.feed(d, S(8, 3, 8, 2)) && w.feed(d, MRET) && w.feed(d, x.word) && w.feed(d, NOP);
      if (ok) { w.outcome(H(d.iss.pc, d.iss.mcause)); w.leaf("access, interrupt"); } else if (!w.report("access, interrupt")) return;
      if (tail) break;
    }
  });
  parallel<T>(sh, nm * 2, [&](W& w, long i) {
    C c;
    if (!prep(w, 3, c)) return;
    Step x = st_of(mem[i / 2]);
    x.md = 3; x.fd = 1 + i % 2;
    C d = c;
    if (!w.exec(d, x)) { w.report("access, reset"); return; }
    int L = w.last_cycles;
    for (int at = 1; at <= L; at++) for (int rn = 1; rn <= 3; rn++) for (int ra = 0; ra < 4; ra++) {
      d = c;
      x.rst_at = at; x.rst_n = rn; x.rst_ack = ra;
      bool ok = w.exec(d, x) && w.feed(d, NOP) && w.feed(d, I(4, 0, 2, 3, 3)) && w.feed(d, S(8, 0, 0, 2)) && w.feed(d, NOP);
      if (ok) w.leaf("access, reset"); else if (!w.report("access, reset")) return;
    }
  });
  contexts(sh, mem);
}

int main(int argc, char** argv) {
  std::string p = argv[1];
  tier = !strcmp(argv[2], "thorough");
  static const std::map<std::string, void (*)(Shared&)> F = {{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C15", c15}, {"C25", c25}};
  auto it = F.find(p);
  if (it == F.end()) return 2;
  Shared* sh = new Shared;
  if (getenv("MC_THREADS")) sh->nthreads = atoi(getenv("MC_THREADS"));
  it->second(*sh);
  put_result(argv[3], *sh, exhaustive, bounds);
  return 0;
}
