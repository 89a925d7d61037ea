// Exploration shared by the equivalence products (C17, C18).  P is the product
// design; P::differs says whether the bus outputs of this cycle disagree.
typedef Worker<P> W;
typedef Ctx<P> C;
static std::string bounds;
static bool all_done = true;
static void bound(const char* f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); bounds += (bounds.empty() ? "" : "; "); bounds += b; }
static void init(W& w) {
  W* p = &w;
  w.tap = [p](C&, const P::In&, const P::Out& o) { const char* d = P::differs(o); return d ? p->fail(V_EXTRA, "%s", d) : true; };
}
static bool rep(W& w, const char* l) { if (w.kind != V_EXTRA) w.kind = V_ABORT; return w.report(l); }
static bool mk(W& w, C& x, u32 mst = 0, u32 mie = 0) { return w.setup(x, 0x00040400, mst, mie) && w.li(x, 8, 0x1000) && w.li(x, 9, 0x800) && w.li(x, 10, 0x00080800); }
static bool start(W& w, C& c, int cfg) { return w.base(1 + cfg, c, [&](C& x) { return mk(w, x, cfg ? MIE_BIT : 0, cfg ? MEI_BIT : 0); }); }
static void irqpat(Step& x, int q) {
  if (q == 1) x.irq0 = 1;
  if (q == 2) { x.ion = 3; x.ioff = 9999; }
  if (q == 3) { x.ion = 2; x.ioff = 5; }
}
static void forms(Shared& sh, bool th, bool stalls) {
  auto a = alphabet(true, true);
  long n = a.size();
  std::vector<u64> pats = {0};
  if (stalls) {
    pats = {~0ull, 0x5555555555555555ull, 0x9249249249249249ull};
    for (int k = 0; k < 16; k++) pats.push_back(1ull << k);
    if (th) for (int k = 0; k < 16; k++) for (int j = 0; j < k; j++) pats.push_back(1ull << k | 1ull << j);
  }
  int WM = th ? 4 : 2;
  bound("all pairs of %ld forms x fetch/data waits 1..%d x 4 interrupt patterns x interrupts enabled or not%s", n, WM, stalls ? " x stall patterns (every single position 0..15, all, alternating; disabled cycles carry inverted inputs and acknowledges)" : "");
  parallel<P>(sh, n * n * 2, [&](W& w, long i) {
    C c;
    if (!start(w, c, i & 1)) return;
    auto &s = a[i / 2 / n], &t = a[i / 2 % n];
    int turn = 0;
    for (int fd = 1; fd <= WM; fd++) for (int md = 1; md <= WM; md++) for (int q = 0; q < 4; q++) for (u64 st : pats) {
      if (stalls && !th && (turn++ % 4) != (i / 2) % 4) continue;
      C d = c;
      Step x, y;
      x.word = s.word; x.rdata = s.rdata; x.fd = fd; x.md = md; x.junk = fd + md; x.stall = st; x.stall_n = 1 + (q & 1);
      y.word = t.word; y.rdata = t.rdata; y.fd = md; y.md = fd; y.junk = fd; y.stall = st; y.stall_n = 1 + (q & 1);
      irqpat(x, q & 2); irqpat(y, q);
      bool ok = w.exec(d, x) && w.exec(d, y) && w.feed(d, S(0, 3, 8, 2)) && w.feed(d, NOP);
      if (ok) w.leaf("pair"); else if (!rep(w, "pair")) return;
    }
  }, false, 140, init);
}
static void words(Shared& sh, bool th) {
  bound("every (opcode,funct3,funct7) x 3x3x3 registers; system opcode: all CSR numbers x 8 funct3 x 4x3 registers%s", th ? "; all 2^25 system, op-imm and op words" : "");
  static const u32 RF[] = {0, 11, 31}, RG[] = {0, 1, 8, 31};
  auto one = [](W& w, const C& c, u32 word) {
    C d = c;
    Step s; s.word = word; s.rdata = 0x89C4D6E8;
    bool ok = w.exec(d, s) && w.feed(d, NOP);
    if (ok) { w.leaf("word"); return true; }
    return rep(w, "word");
  };
  parallel<P>(sh, 128 * 128, [&](W& w, long i) {
    C c;
    if (!start(w, c, 0)) return;
    for (u32 f3 = 0; f3 < 8; f3++) for (u32 a : RF) for (u32 b : RF) for (u32 d : RF) if (!one(w, c, R(i >> 7, a, b, f3, d, i & 127))) return;
  }, false, 140, init);
  parallel<P>(sh, 4096, [&](W& w, long i) {
    C c;
    if (!start(w, c, 0)) return;
    for (u32 f3 = 0; f3 < 8; f3++) for (u32 a : RG) for (u32 d : RF) if (!one(w, c, CSR(i, a, f3, d))) return;
  }, false, 140, init);
  if (th) parallel<P>(sh, 3 * 4096, [&](W& w, long i) {
    C c;
    if (!start(w, c, 0)) return;
    static const u32 O[] = {0x73, 0x13, 0x33};
    for (u32 n = 0; n < 8192; n++) if (!one(w, c, ((u32)(i & 4095) << 13 | n) << 7 | O[i >> 12])) return;
  }, false, 140, init);
}
static void operands(Shared& sh, bool th) {
  auto v = values(th ? 1 : 0);
  bound("%zu^2 operand values x operations, branches, loads and stores", v.size());
  parallel<P>(sh, v.size(), [&](W& w, long i) {
    C c;
    if (!start(w, c, 0) || !w.li(c, 11, v[i])) { rep(w, "operands"); return; }
    for (u32 b : v) {
      C d = c;
      if (!w.li(d, 12, b)) { if (!rep(w, "operands")) return; continue; }
      auto go = [&](u32 word) {
        C e = d;
        Step s; s.word = word; s.rdata = b; s.stall = 0x249;
        bool ok = w.exec(e, s) && w.feed(e, S(0, 13, 0, 2)) && w.feed(e, NOP);
        if (ok) { w.leaf("operands"); return true; }
        return rep(w, "operands");
      };
      for (auto& o : OPS) if (!go(R(o.f7, 12, 11, o.f3, 13))) return;
      for (auto& o : BRS) if (!go(B(64, 12, 11, o.f3))) return;
      if (!go(I(b & 0xFFF, 11, 2, 13, 3)) || !go(I(b & 0xFFF, 11, 5, 13, 3)) || !go(S(b & 0xFFF, 12, 11, 2)) || !go(I(b & 0xFFF, 11, 0, 13, 0x67)) || !go(U(b >> 12, 13, 0x17)) || !go(CSR(MSCRATCH, 12, 3, 13))) return;
    }
  }, false, 140, init);
}
static void resets(Shared& sh, bool th) {
  auto a = alphabet(true, true);
  long n = a.size();
  bound("reset for 1..%d cycles at every cycle of every form x 4 acknowledge patterns x interrupt line 0/1, then a register sweep", th ? 4 : 2);
  parallel<P>(sh, n * 2, [&](W& w, long i) {
    C c;
    if (!start(w, c, i & 1)) return;
    auto& s = a[i / 2];
    for (int at = 1; at < 80; at++) {
      bool done = false;
      for (int du = 1; du <= (th ? 4 : 2); du++) for (int ak = 0; ak < 4; ak++) for (int q = 0; q < 2; q++) for (int wt = 1; wt <= 2; wt++) {
        C d = c;
        Step x; x.word = s.word; x.rdata = s.rdata; x.fd = x.md = wt; x.rst_at = at; x.rst_n = du; x.rst_ack = ak; x.irq0 = q; x.junk = 1;
        bool ok = w.exec(d, x);
        if (ok && !w.resets) { done = wt == 2; continue; }
        for (u32 r : {1u, 2u, 3u, 5u, 8u, 31u}) if (ok) { Step y; y.word = S(0, r, 0, 2); y.raw = 14; ok = w.exec(d, y); }
        if (ok) w.leaf("reset"); else if (!rep(w, "reset")) return;
      }
      if (done) break;
    }
  }, false, 140, init);
}
static Step st_of(const Sym& s) { Step x; x.word = s.word; x.rdata = s.rdata; x.irq0 = s.irq; return x; }
// triples of events, idle-bus words, program counters, all legal words of the
// common opcodes, long walks
static void histories(Shared& sh, bool th, bool stalls) {
  auto a = events();
  auto pv = pcs();
  long n = a.size();
  bound("all triples of %ld events, interrupts disabled and enabled; pairs x %d idle-bus patterns x waits 1..2; every event at %zu program counters; walks of %d events with every stride; each event %d times in a row", n, (int)N_JUNK, pv.size(), th ? 20000 : 4000, th ? 40000 : 4000);
  parallel<P>(sh, n * n * 2, [&](W& w, long i) {
    C c;
    int cfg = i & 1;
    if (!start(w, c, cfg)) return;
    auto &p = a[i / 2 / n], &q = a[i / 2 % n];
    Step x = st_of(p), y = st_of(q);
    x.stall = stalls ? 0x5A5 : 0; y.stall = stalls ? 0xA5A : 0;
    if (!w.exec(c, x) || !w.exec(c, y)) { rep(w, "triple"); return; }
    for (auto& s : a) {
      if (cfg && !(s.irq || p.irq || q.irq)) continue;
      C d = c;
      Step z = st_of(s);
      z.stall = stalls ? 0xC3 : 0;
      bool ok = w.exec(d, z) && w.feed(d, S(0, 3, 8, 2)) && w.feed(d, S(0, 1, 8, 2)) && w.feed(d, CSR(MSTATUS, 0, 2, 2)) && w.feed(d, S(0, 2, 8, 2));
      if (ok) w.leaf("triple"); else if (!rep(w, "triple")) return;
    }
    if (!cfg) return;
  }, false, 140, init);
  parallel<P>(sh, n * n, [&](W& w, long i) {
    C c;
    if (!start(w, c, i & 1)) return;
    for (int j = 0; j < N_JUNK; j++) for (int f = 0; f < 4; f++) {
      if (!th && (j + f + i) % 4) continue;
      C d = c;
      Step x = st_of(a[i / n]), y = st_of(a[i % n]);
      x.fd = y.md = 1 + (f & 1); x.md = y.fd = 1 + (f >> 1); x.junk = j; y.junk = (j * 5 + 3) % N_JUNK;
      if (stalls) { x.stall = 0x249249; x.stall_n = 1 + f; y.stall = 0x124924; y.stall_n = 4 - f; }
      bool ok = w.exec(d, x) && w.exec(d, y) && w.feed(d, S(0, 3, 8, 2)) && w.feed(d, CSR(MCAUSE, 0, 2, 2)) && w.feed(d, S(0, 2, 8, 2));
      if (ok) w.leaf("idle bus"); else if (!rep(w, "idle bus")) return;
    }
  }, false, 140, init);
  parallel<P>(sh, (long)pv.size(), [&](W& w, long i) {
    C c;
    if (!w.base(8000 + i, c, [&](C& x) { return mk(w, x) && w.li(x, 30, pv[i]) && w.feed(x, I(0, 30, 0, 0, 0x67)); })) return;
    for (auto& f : a) {
      C d = c;
      Step x = st_of(f);
      if (stalls) x.stall = 0x924;
      bool ok = w.exec(d, x) && w.feed(d, S(0, 3, 8, 2)) && w.feed(d, U(0, 2, 0x17)) && w.feed(d, S(0, 2, 8, 2)) && w.feed(d, CSR(MEPC, 0, 2, 2)) && w.feed(d, S(0, 2, 8, 2));
      if (ok) w.leaf("pc"); else if (!rep(w, "pc")) return;
    }
  }, false, 140, init);
  std::atomic<bool> stop{false};
  int walk = th ? 20000 : 4000, reps = th ? 40000 : 4000;
  parallel<P>(sh, 2 * n, [&](W& w, long i) {
    C c;
    if (stop || !start(w, c, i & 1)) return;
    bool walking = i >= n;
    long stride = 1 + (i - n), pos = i;
    for (int k = 0; k < (walking ? walk : reps) && !stop; k++) {
      if (walking) { pos = (pos + stride) % n; if (k % n == n - 1 && !(n % stride)) pos++; }
      Step x = st_of(walking ? a[pos % n] : a[i]);
      if (stalls && k % 3 == 0) x.stall = 1u << k % 11;
      if (!w.exec(c, x) || (k % 251 == 250 && (!w.li(c, 8, 0x1000) || !w.li(c, 9, 0x800) || !w.li(c, 10, 0x80800) || !w.feed(c, S(0, 3, 8, 2))))) {
        if (w.kind != V_EXTRA) { w.kind = V_NONE; return; }
        if (!stop.exchange(true)) rep(w, "long walk");
        return;
      }
    }
    w.leaves++;
  }, false, 140, init);
  std::vector<int> wl;
  for (int d = 3; d <= 300; d++) wl.push_back(d);
  for (int d : {511, 512, 513, 1025, 2049, 4097, 8193, 16385, 32769, 65537}) wl.push_back(d);
  bound("each request of every event kept waiting 3..300 and up to 65537 cycles");
  parallel<P>(sh, n, [&](W& w, long i) {
    C c;
    if (!start(w, c, i & 1)) return;
    for (int d : wl) for (int which = 0; which < 2; which++) {
      C e = c;
      Step x = st_of(a[i]);
      x.fd = which ? 1 : d; x.md = which ? d : 1; x.junk = 2 + which;
      bool ok = w.exec(e, x) && w.feed(e, S(0, 3, 8, 2)) && w.feed(e, NOP);
      if (ok) { if (d < 40) w.leaf("long wait"); else w.leaves++; } else if (!rep(w, "long wait")) return;
    }
  }, false, 140, init);
}
static void fixall(Shared& sh, Env e, const char* label) {
  auto ps = programs();
  bound("all reachable states of %zu closed programs, %s free in every cycle%s (cap %ld states each)", ps.size(), label, e.calm && e.rst ? " until the first reset" : "", e.cap);
  std::atomic<int> nx{0};
  std::vector<std::thread> ts;
  for (int t = 0; t < sh.nthreads; t++) ts.emplace_back([&] {
    for (int i; (i = nx++) < (int)ps.size();) fixrun<P, false>(sh, ps[i], e, label, nullptr);
  });
  for (auto& t : ts) t.join();
}
static void finish(Shared& sh, const char* out) {
  for (auto& kv : sh.counters) if (!kv.first.compare(0, 6, "capped")) all_done = false;
  put_result(out, sh, all_done, bounds + (all_done ? "" : " - state cap reached on the programs counted as capped"));
}
