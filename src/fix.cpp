// Fixpoints over closed programs.  fix <property> <tier> <out.json>
#include "dut_top.h"
#include "fix.h"
typedef T_top T;
static bool functional(Kind k) { return k == V_NEXT || k == V_MEM || k == V_IRQ || k == V_HANG || k == V_RESET; }
int main(int argc, char** argv) {
  std::string pid = argv[1];
  bool th = !strcmp(argv[2], "thorough");
  Shared* sh = new Shared;
  auto ps = programs();
  struct Job { const Prog* p; Env e; Env base; bool need; const char* label; std::function<bool(Kind)> want; };
  std::vector<Job> jobs;
  Env none, irq, wait, all;
  long cap = th ? 10000000 : 6000000;
  none.cap = irq.cap = wait.cap = all.cap = cap;
  irq.irq = true;
  wait.wait = wait.junk = true;
  all.irq = all.wait = all.junk = all.rst = true;
  Env iw = all; iw.rst = false;
  Env ir = all; ir.wait = ir.junk = false; ir.resets = th ? 2 : 1;
  Env calm = all; calm.calm = true; calm.resets = 2;
  for (auto& p : ps) {
    if (pid == "C08" || pid == "C09") { jobs.push_back({&p, irq, none, true, "interrupt line free every cycle", functional}); jobs.push_back({&p, iw, wait, true, "interrupt line, acknowledge and idle data free", functional}); }
    if (pid == "C10") jobs.push_back({&p, all, none, false, "interrupt, acknowledge, idle data and reset free", [](Kind k) { return k == V_PROTO; }});
    if (pid == "C11") jobs.push_back({&p, wait, none, true, "acknowledge and idle data free", functional});
    if (pid == "C12") { jobs.push_back({&p, calm, iw, true, "reset", functional}); jobs.push_back({&p, ir, iw, true, "reset, interrupt", functional}); if (th) jobs.push_back({&p, all, iw, true, "reset, interrupt, acknowledge and idle data free", functional}); }
    if (pid == "C13") jobs.push_back({&p, all, none, false, "interrupt, acknowledge, idle data and reset free", [](Kind k) { return k == V_HANG; }});
  }
  std::atomic<int> nx{0};
  std::vector<std::thread> ts;
  bool capped = false;
  for (int t = 0; t < sh->nthreads; t++) ts.emplace_back([&] {
    for (int i; (i = nx++) < (int)jobs.size();) {
      Job& j = jobs[i];
      if (j.need && !fixrun<T, true>(*sh, *j.p, j.base, "baseline", functional, true)) { std::lock_guard<std::mutex> g(sh->mu); sh->counters["skipped: baseline of " + j.p->name + " breaks another property"] = 1; continue; }
      fixrun<T, true>(*sh, *j.p, j.e, j.label, j.want, false, pid == "C10" || pid == "C13");
    }
  });
  for (auto& t : ts) t.join();
  for (auto& kv : sh->counters) if (!kv.first.compare(0, 6, "capped")) capped = true;
  char b[200];
  snprintf(b, sizeof b, "all reachable states of %zu closed programs with the environment free in every cycle%s", ps.size(), capped ? " (state cap reached on the programs counted as capped)" : "");
  put_result(argv[3], *sh, !capped, b);
  return 0;
}
